"""Gated value-flow analysis: one abstract pass over a function and everything it calls inside the package.

Every value is a set of (guard, term) pairs, guards are BDDs over branch outcomes, states are merged at joins (no path
enumeration), loops are analysed by one generic iteration with loop-carried (mu) values, calls inside the package are
inlined, everything else is an opaque event.  The result is an ordered list of guarded events (calls, stores, raises)
over which the rules of rules_*.py are decided.  Nothing of the repository is executed."""
import ast
import builtins
from fractions import Fraction

from . import core
from .bdd import TRUE, FALSE
from .core import (B, T, V, Atoms, Info, NONE, TRUE_T, FALSE_T, add, atom, cat, const, cross, cval, eq, eqc, isinst,
                   isnone, is_const, is_num, is_numc, is_str, is_strc, leaves, lt, mk, nonnull, one, sat, scale, truthy,
                   vnorm, show, gshow, endswith, startswith, subterms)
from .model import AnalysisError, Class, Func, Module


class Segs(tuple):
    """contents of a list-like object: ('e',g,V) ('each',g,L,subs) ('base',g,T) ('mu',g,L) ('unk',g)"""


class Ops(tuple):
    """write log of a dict-like object: ('set',g,K,X) ('del',g,K) ('clear',g) ('upd',g,T) ('mu',g,L) ('each',g,L,ops)"""


class Loop(object):
    def __init__(self, id, kind, key, raw, node, func):
        self.id, self.kind, self.key, self.raw, self.node, self.func = id, kind, key, raw, node, func
        self.more = TRUE           # guard of 'one more iteration' at the head
        self.mod = {}              # heap key -> (init, next, mu term)
        self.order = None
        self.pc = TRUE             # path condition at loop entry
        self.first = self.last = 0
        self.filt = TRUE           # condition under which the source holds the element (filtered sources)
        self.parents = ()
        self.src = None
        self.made = None           # numbers of the objects made in a pass

    def owns(self, o):
        """the object is made once per element of the list this loop goes through"""
        s = self.src
        while s is not None:
            if s.made and s.made[1] and o.op == 'obj' and isinstance(o.args[0], int) and s.made[0] < o.args[0] <= s.made[1]:
                return True
            s = s.src
        return False

    def __repr__(self):
        return '<%s loop#%d over %s>' % (self.kind, self.id, self.raw)


class Event(object):
    __slots__ = ('i', 'kind', 'g', 'fn', 'recv', 'args', 'kw', 'res', 'raises', 'site', 'loops', 'heap', 'stack',
                 'extra', 'func')

    def __repr__(self):
        return '#%d %s %s.%s(%s) if %s @%s' % (self.i, self.kind, self.recv, self.fn,
                                               ', '.join(map(repr, self.args)), gshow(self.g), self.where())

    def where(self):
        return '%s:%s' % self.site

    def arg(self, i, name=None):
        if isinstance(i, int) and i < len(self.args):
            return self.args[i]
        return self.kw.get(name) if name else None


class St(object):
    __slots__ = ('heap', 'pc', 'shared')

    def __init__(self, heap, pc, shared=False):
        self.heap, self.pc, self.shared = heap, pc, shared

    def fork(self):
        self.shared = True
        return St(self.heap, self.pc, True)

    def snap(self):
        self.shared = True
        return self.heap

    def put(self, k, v):
        if self.shared:
            self.heap = dict(self.heap)
            self.shared = False
        self.heap[k] = v

    def drop(self, k):
        if k in self.heap:
            if self.shared:
                self.heap = dict(self.heap)
                self.shared = False
            del self.heap[k]

    def become(self, o):
        self.heap, self.pc, self.shared = o.heap, o.pc, o.shared
        o.shared = self.shared = True

    @property
    def dead(self):
        return not sat(self.pc)


class Frame(object):
    def __init__(self, func, term, env, module, cls, selft):
        self.func, self.term, self.env, self.module, self.cls, self.selft = func, term, env, module, cls, selft
        self.rets = []
        self.loop = None           # LoopCtx
        self.on_yield = None
        self.consumer = None
        self.sink = None           # LoopCtx: exits of the code that consumes a generator
        self.locals = func.locals if func is not None else set()


class LoopCtx(object):
    def __init__(self):
        self.brks, self.cnts = [], []
        self.excs = []


MISSING = mk('missing')

PURE_METHODS = {'strip', 'lstrip', 'rstrip', 'split', 'rsplit', 'lower', 'upper', 'isdigit', 'isnumeric', 'isdecimal',
                'isalpha', 'isalnum', 'zfill', 'center', 'ljust', 'rjust', 'partition', 'rpartition', 'splitlines',
                'encode', 'decode', 'title', 'find', 'rfind', 'count', 'strftime', 'date', 'time', 'timestamp',
                'total_seconds', 'isna', 'all', 'any', 'group', 'groups', 'getChild', 'replace', 'fromtimestamp',
                'isoformat', 'weekday', 'utcoffset', 'timetuple', 'format_map', 'isspace', 'capitalize', 'swapcase',
                'removeprefix', 'removesuffix', 'index', 'hex', 'startswith', 'endswith', '_asdict', 'itertuples'}
PURE_NORAISE = PURE_METHODS - {'index', 'timestamp', 'itertuples'}
DICT_METHODS = {'get', 'setdefault', 'items', 'keys', 'values', 'update', 'popitem'}
LIST_METHODS = {'append', 'extend', 'insert', 'remove', 'sort', 'reverse', 'appendleft', 'add', 'discard', 'popleft'}
LOGM = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}
NORAISE_METHODS = {'tell', 'getChild', 'lower', 'fileno', 'format', 'locked', 'is_set'}

PURE_EXT = {'datetime.datetime.combine', 'datetime.datetime.strptime', 'datetime.datetime.fromtimestamp',
            'datetime.time', 'datetime.datetime', 'datetime.date', 'os.path.join', 'os.path.abspath',
            'os.path.expanduser', 'os.path.split', 'os.path.basename', 'os.path.dirname', 'os.path.splitext',
            'os.path.normpath', 'os.path.realpath', 'pandas.isna', 'pandas.isnull', 'math.isnan', 'math.ceil',
            'math.floor', 'logging.getLogger', 'sys.getfilesystemencoding', 'os.getpid', 'os.getppid', 'copy.copy',
            'copy.deepcopy', 'json.dumps', 'os.fspath', 'builtins.repr', 'builtins.hash', 'builtins.round',
            'builtins.ord', 'builtins.chr', 'builtins.divmod', 'builtins.pow', 'builtins.id', 'operator.itemgetter',
            'operator.attrgetter', 'datetime.datetime.fromisoformat', 'datetime.date.fromisoformat', 'builtins.slice'}
RAISING_PURE = {'datetime.datetime.strptime': ('builtins.ValueError', 'builtins.TypeError'),
                'datetime.datetime.fromisoformat': ('builtins.ValueError', 'builtins.TypeError'),
                'datetime.time': ('builtins.ValueError', 'builtins.TypeError')}
NOW_EXT = {'datetime.datetime.now', 'datetime.date.today', 'time.time', 'datetime.datetime.today', 'time.monotonic'}
NORAISE_EXT = NOW_EXT | {'time.sleep', 'os.path.exists', 'os.path.isdir', 'os.path.isfile', 'builtins.print',
                         'uuid.uuid4', 'threading.Lock', 'threading.RLock', 'traceback.format_exc', 'builtins.type',
                         'collections.OrderedDict', 'pyuv.Loop', 'pyuv.Async', 'pyuv.Timer', 'pyuv.Signal',
                         'argparse.ArgumentParser', 'builtins.object', 'builtins.vars', 'builtins.callable'}


def dkey(d):
    return d[9:] if d.startswith('builtins.') else d


class Interp(object):
    def __init__(self, prog, types, opaque=()):
        self.prog, self.ty = prog, types
        self.opaque = set(opaque)          # Func objects not to be inlined
        sh = prog.__dict__.setdefault('shared', {'static': {}, 'cattr': {}, 'types': {}, 'runs': 0})
        self.static, self._cattr, self._tymemo = sh['static'], sh['cattr'], sh['types']
        self.reset()
        sh['runs'] += 1
        self.n = sh['runs'] * 10 ** 5      # terms of different runs never share a number
        Info.types = self.typeof
        self.stats = {'functions': set(), 'sites': set(), 'unsupported': []}

    STATIC = 10 ** 9

    def reset(self):
        self.excs = []
        self.tuples = {}
        self.ucopy, self.asmap = {}, set()
        self.events, self.loops = [], []
        self.n = 0
        self.mute = 0
        self.lstack = ()
        self.calls = []
        self.handling = []
        self.itry = 0
        self.occ = {}
        self.mutypes = {}
        self.clock = 0

    # ------------------------------------------------------------------ bookkeeping
    def new(self, kind, *info):
        self.n += 1
        return mk('obj', self.n, kind, *info)

    def event(self, kind, st, fn, recv=None, args=(), kw=None, res=None, raises=None, g=TRUE, node=None, extra=None):
        gg = B.AND(st.pc, g)
        if self.mute or not sat(gg):
            return None
        e = Event()
        self.clock += 1
        e.i, e.kind, e.g, e.fn, e.recv, e.args, e.kw = self.clock, kind, gg, fn, recv, tuple(args), dict(kw or {})
        e.res, e.raises, e.extra = res, raises, extra
        fr = self.calls[-1] if self.calls else None
        e.site = (fr.module.path if fr else '?', getattr(node, 'lineno', 0))
        e.func = fr.func if fr else None
        e.stack = tuple(f.func for f in self.calls)
        e.loops = self.lstack
        e.heap = st.snap()
        self.events.append(e)
        self.stats['sites'].add(e.site)
        return e

    def setl(self, loops):
        self.lstack = loops
        Atoms.loops = tuple(l.id for l in loops)

    # ------------------------------------------------------------------ types
    def typeof(self, t):
        m = self._tymemo
        if t in m:
            return m[t]
        m[t] = None
        r = self._typeof(t)
        m[t] = r
        return r

    def declare(self, t, vals):
        self._tymemo[t] = set(vals)
        return t

    def _typeof(self, t):
        op = t.op
        if op == 'obj':
            return {('i', t.args[1])} if isinstance(t.args[1], Class) else None
        if op == 'const':
            return {('p', t.args[0] if cval(t) is not None else 'None')}
        if op == 'enum':
            return {('i', t.args[0])}
        if op == 'enumby':
            return {('i', t.args[0])}
        if op == 'attr':
            tb = self.typeof(t.args[0])
            if not tb:
                return None
            out = set()
            for v in tb:
                if v[0] == 'i':
                    out |= self.ty.getattr(v, t.args[1])
            return out or None
        if op == 'res' and t.args[1] in ('heapq.heappop', 'heapq.heappushpop', 'heapq.heapreplace') and len(t.args) > 2:
            tb = self.typeof(t.args[2])
            return (self.ty._iter(tb) or None) if tb else None
        if op == 'single':
            return {('i', t.args[0])}
        if op in ('ver', 'tail', 'loopdict'):
            return self.typeof(t.args[0])
        if op == 'item':
            tb = self.typeof(t.args[0])
            if not tb:
                return None
            out = set()
            for v in tb:
                if v[0] == 'k':
                    k = t.args[1]
                    if is_numc(k) and (v[1], cval(k)) in self.ty.elem:
                        out |= self.ty.elem[(v[1], cval(k))]
                    else:
                        out |= self.ty._iter({v})
            return out or None
        if op == 'elem':
            tb = self.typeof(t.args[0])
            return (self.ty.iter_types(tb) or None) if tb else None
        if op in ('mu', 'muout'):
            return self.mutypes.get(t)
        if op == 'cell':
            return self.ty.var.get((t.args[0], t.args[1])) or None
        if op == 'cattr':
            out = set()
            for c in t.args[0].mro():
                out |= self.ty.cattr.get((c, t.args[1]), set())
            return out or None
        if op == 'app' and t.args[0] in ('sorted', 'list', 'set', 'reversed', 'copy', 'copy.copy'):
            return self.typeof(t.args[1])
        return None

    def classes_of(self, t):
        """candidate repo classes of an instance term, or ()"""
        if t.op == 'obj':
            return (t.args[1],) if isinstance(t.args[1], Class) else ()
        if t.op == 'enum':
            return (t.args[0],)
        ty = self.typeof(t)
        if not ty:
            return ()
        cs = sorted({v[1] for v in ty if v[0] == 'i'}, key=lambda c: c.qual)
        if len(cs) > 1:
            # drop strict superclasses that only come from 'self' of inherited methods
            cs = [c for c in cs if not any(d is not c and c in d.mro() for d in cs)] or cs
        return tuple(cs)

    def isdict(self, t):
        ty = self.typeof(t)
        return bool(ty) and any(v[0] == 'k' and v[1] in self.ty.dictsites for v in ty)

    def islist(self, t):
        ty = self.typeof(t)
        return bool(ty) and all(v[0] == 'k' and v[1] not in self.ty.dictsites for v in ty)

    # ------------------------------------------------------------------ merging
    def merge_val(self, a, pa, b, pb):
        if a is b or a == b:
            return a
        if isinstance(a, V) and isinstance(b, V):
            p = B.OR(pa, pb)
            return vnorm([(B.restrict(g, p), t) for g, t in vnorm(
                [(B.AND(g, pa), t) for g, t in a.ls] + [(B.AND(g, pb), t) for g, t in b.ls]).ls])
        if type(a) is type(b) and isinstance(a, (Segs, Ops)):
            i = 0
            while i < len(a) and i < len(b) and a[i] == b[i]:
                i += 1
            ra, rb = a[i:], b[i:]

            def re(s, p):
                return (s[0], B.restrict(B.AND(s[1], p), pab)) + s[2:]
            pab = B.OR(pa, pb)
            if len(ra) == len(rb) and all(x[0] == y[0] and x[2:] == y[2:] for x, y in zip(ra, rb)):
                rest = [(x[0], B.restrict(B.OR(B.AND(x[1], pa), B.AND(y[1], pb)), pab)) + x[2:] for x, y in zip(ra, rb)]
            else:
                rest = [re(s, pa) for s in ra] + [re(s, pb) for s in rb]
            return type(a)(list(a[:i]) + [s for s in rest if s[1] != FALSE])
        return a

    def merge(self, sts):
        sts = [s for s in sts if s is not None and not s.dead]
        if not sts:
            return St({}, FALSE)
        if len(sts) == 1:
            return sts[0]
        cur = sts[0]
        for s in sts[1:]:
            if s.heap is cur.heap:
                cur = St(cur.heap, B.OR(cur.pc, s.pc), True)
                cur.shared = s.shared = True
                continue
            h = dict(cur.heap)
            ha, hb = cur.heap, s.heap
            for k in hb:
                b = hb[k]
                if k in ha:
                    a = ha[k]
                    if a is not b:
                        h[k] = self.merge_val(a, cur.pc, b, s.pc)
                else:
                    d = self.default(k, cur)
                    h[k] = self.merge_val(d, cur.pc, b, s.pc) if d is not None else b
            for k in ha:
                if k not in hb:
                    d = self.default(k, s)
                    if d is not None:
                        h[k] = self.merge_val(ha[k], cur.pc, d, s.pc)
            cur = St(h, B.OR(cur.pc, s.pc))
        return cur

    def merge_v(self, pairs):
        """[(St, V)] -> (St, V)"""
        pairs = [(s, v) for s, v in pairs if not s.dead]
        if not pairs:
            return St({}, FALSE), one(NONE)
        if len(pairs) == 1:
            return pairs[0]
        p = B.any(s.pc for s, _ in pairs)
        v = vnorm([(B.restrict(g, p), t) for g, t in vnorm(
            [(B.AND(g, s.pc), t) for s, v in pairs for g, t in v.ls]).ls])
        if all(p[1] == pairs[0][1] for p in pairs):
            v = pairs[0][1]
        return self.merge([s for s, _ in pairs]), v

    def default(self, k, st=None):
        """value of a heap cell that has not been written on a path (None: undefined)"""
        o, f = k
        if o.op in ('frame', 'obj', 'static'):
            return None
        if f == '$l':
            return Segs([('base', TRUE, o if st is None else self.base(o, st))])
        if f == '$d':
            return Ops()
        if f == '$epoch':
            return one(const(0))
        if st is None or o.op == 'cls' or self.ty.field_final(f) or self.fresh_source(o) and \
                not any(self._is_field(c, f) for c in self.classes_of(o)):
            return one(mk('attr', o, f, 0))
        return vnorm([(g, mk('attr', o, f, cval(e))) for g, e in self.epoch(st).ls])

    # ------------------------------------------------------------------ epochs (opaque callbacks may change any state)
    EPOCH = mk('static', 'epoch')

    def epoch(self, st):
        return st.heap.get((self.EPOCH, '$epoch')) or one(const(0))

    def havoc(self, st):
        self.n += 1
        keep = {}
        for (o, f), v in st.heap.items():
            if o.op in ('frame', 'obj', 'static'):
                keep[(o, f)] = v
            elif f not in ('$l', '$d') and self.ty.field_final(f):
                keep[(o, f)] = v
        keep[(self.EPOCH, '$epoch')] = one(const(self.n))
        st.heap, st.shared = keep, False

    def base(self, t, st):
        """contents term of a symbolic container at this point"""
        ep = self.epoch(st)
        if len(ep.ls) == 1:
            e = cval(ep.ls[0][1])
        else:
            e = max(cval(t2) for _, t2 in ep.ls)
        if e == 0 or self.fresh_source(t):
            return t
        return mk('ver', t, e)

    def fresh_source(self, t):
        # contents of values that were produced after the epoch, or that no callback can reach
        return t.op in ('app', 'res', 'sym', 'const', 'elem')

    # ------------------------------------------------------------------ raising
    def raise_maybe(self, st, key, name, excs=None, node=None):
        """the operation may raise; returns the 'raises' guard"""
        r = atom('raises', key)
        if sat(B.AND(st.pc, r)):
            x = mk('exc', key, name)
            if excs:
                Info.excset[x] = tuple(excs)
            s2 = st.fork()
            s2.pc = B.AND(st.pc, r)
            self.excs.append((s2, one(x)))
        st.pc = B.AND(st.pc, B.NOT(r))
        return r

    def raise_now(self, st, v, node=None, g=TRUE):
        s2 = st.fork()
        s2.pc = B.AND(st.pc, g)
        if not s2.dead:
            self.excs.append((s2, v))
        st.pc = B.AND(st.pc, B.NOT(g))

    def raise_builtin(self, st, name, g, node):
        if not sat(B.AND(st.pc, g)):
            return
        x = self.new('x:builtins.' + name)
        self.event('raise', st, name, args=[one(x)], g=g, node=node, extra='implicit')
        self.raise_now(st, one(x), node, g)

    # ------------------------------------------------------------------ lists
    def segs(self, t, st):
        s = st.heap.get((t, '$l'))
        if s is None:
            s = self.static.get((t, '$l'))
        if s is None:
            s = self.tuples.get(t)             # tuples never change
            if s is not None:
                return s
            if t.op == 'obj' and t.args[1] in ('list', 'tuple', 'set', 'deque'):
                return Segs()
            return Segs([('base', TRUE, self.base(t, st))])
        return s

    def mklist(self, st, segs, kind='list'):
        t = self.new(kind)
        st.put((t, '$l'), Segs(segs))
        if kind == 'tuple':
            self.tuples[t] = Segs(segs)
        return t

    def tuple_of(self, st, vs):
        return self.mklist(st, [('e', TRUE, v) for v in vs], 'tuple')

    def known_elems(self, t, st):
        """list of V when the contents are a fixed sequence, else None"""
        s = self.segs(t, st)
        out = []
        for x in s:
            if x[0] != 'e':
                return None
            g = B.AND(x[1], st.pc)
            if not sat(g):
                continue
            if core.implies(st.pc, x[1]):
                out.append(x[2])
            else:
                return None
        return out

    def as_map(self, t, st):
        """a copy of an unknown container that is used with text keys is a mapping"""
        if t in self.ucopy and t not in self.asmap:
            self.asmap.add(t)

    def is_seq(self, t):
        if t in self.asmap:
            return False
        return t.op == 'obj' and t.args[1] in ('list', 'tuple', 'set', 'deque') or \
            (t.op == 'obj' and isinstance(t.args[1], str) and t.args[1].startswith('nt:'))

    def ops(self, t, st):
        o = st.heap.get((t, '$d'))
        if o is None:
            o = self.static.get((t, '$d'))
        if o is None and t in self.asmap:
            o = Ops((('upd', TRUE, self.ucopy[t]),))
        return o if o is not None else Ops()

    def is_map(self, t):
        return t.op == 'obj' and (t.args[1] == 'dict' or t in self.asmap)

    def dict_lookup(self, d, k, st):
        """[(guard, V or MISSING)] for d[k]"""
        out, r = [], st.pc
        for o in reversed(self.ops(d, st)):
            g = B.AND(r, o[1])
            if not sat(g):
                continue
            if o[0] == 'set':
                for kg, kt in leaves(o[2], g):
                    e = self.eq_terms(kt, k, st)
                    h = B.all([g, kg, e])
                    if sat(h):
                        out.append((h, o[3]))
                        r = B.AND(r, B.NOT(B.all([o[1], kg, e])))
            elif o[0] == 'del':
                for kg, kt in leaves(o[2], g):
                    e = self.eq_terms(kt, k, st)
                    h = B.all([g, kg, e])
                    if sat(h):
                        out.append((h, MISSING))
                        r = B.AND(r, B.NOT(B.all([o[1], kg, e])))
            elif o[0] == 'clear':
                out.append((g, MISSING))
                r = B.AND(r, B.NOT(o[1]))
            elif o[0] == 'upd':
                hk = atom('haskey', o[2], k)
                h = B.AND(g, hk)
                out.append((h, one(mk('item', o[2], k))))
                r = B.AND(r, B.NOT(B.AND(o[1], hk)))
            elif o[0] in ('mu', 'each'):
                lt_ = mk('loopdict', d, o[2].id)
                hk = atom('haskey', lt_, k)
                h = B.AND(g, hk)
                out.append((h, one(mk('item', lt_, k))))
                r = B.AND(r, B.NOT(B.AND(o[1], hk)))
            if not sat(r):
                return out
        if sat(r):
            if self.is_map(d):
                out.append((r, MISSING))
            else:
                b = self.base(d, st)
                hk = self.haskey(b, k)
                if sat(B.AND(r, hk)):
                    out.append((B.AND(r, hk), one(mk('item', b, k))))
                if sat(B.AND(r, B.NOT(hk))):
                    out.append((B.AND(r, B.NOT(hk)), MISSING))
        return out

    def haskey(self, b, k):
        if b.op == 'members':
            return B.any(eqc(k, const(nm)) for nm, _ in b.args[0].members)
        if k.op == 'key' and k.args[0] is b:
            return TRUE     # a key the mapping is just iterated over
        return atom('haskey', b, k)

    # ------------------------------------------------------------------ truth and comparison
    def truth_t(self, t, st):
        if t.op == 'obj' or t.op in ('attr', 'item', 'app', 'res', 'sym', 'elem', 'ver', 'tail', 'mu', 'muout', 'key'):
            if self.is_seq(t) or (t, '$l') in st.heap or (t, '$l') in self.static:
                r = FALSE
                for s in self.segs(t, st):
                    if s[0] == 'e':
                        r = B.OR(r, s[1])
                    elif s[0] == 'each':
                        ne = self._seg_exists(s, lambda x: TRUE)
                        r = B.OR(r, B.AND(s[1], atom('nonempty', s[2].id)) if ne is None else ne)
                    elif s[0] == 'base':
                        r = B.OR(r, B.AND(s[1], truthy(s[2])))
                    else:
                        r = B.OR(r, B.AND(s[1], atom('nonempty', t)))
                return r
            if self.is_map(t):
                r = FALSE
                for o in self.ops(t, st):
                    if o[0] == 'set':
                        r = B.OR(r, o[1])
                    elif o[0] == 'clear':
                        r = B.AND(r, B.NOT(o[1]))
                    else:
                        r = B.OR(r, B.AND(o[1], atom('nonempty', t, len(self.ops(t, st)))))
                return r
            if t.op == 'obj':
                return TRUE
            ty = self.typeof(t)
            if ty and any(v[0] == 'k' for v in ty):
                return truthy(self.base(t, st))
        if t.op == 'gen':
            return TRUE
        return truthy(t)

    def truth(self, v, st):
        if len(v.ls) == 1:
            return self.truth_t(v.ls[0][1], st)
        return B.any(B.AND(g, self.truth_t(t, st)) for g, t in v.ls)

    def vbool(self, g):
        if g == TRUE:
            return one(TRUE_T)
        if g == FALSE:
            return one(FALSE_T)
        return V([(g, TRUE_T), (B.NOT(g), FALSE_T)])

    def eq_terms(self, a, b, st):
        if a is b:
            return TRUE
        if self.is_seq(a) and self.is_seq(b):
            ka, kb = self.known_elems(a, st), self.known_elems(b, st)
            if ka is not None and kb is not None:
                if len(ka) != len(kb):
                    return FALSE
                return B.all(self.truth(self.compare(ast.Eq(), x, y, st, None), st) for x, y in zip(ka, kb))
        return eq(a, b)

    def len_t(self, t, st):
        if self.is_seq(t) or (t, '$l') in st.heap:
            k = self.known_elems(t, st)
            if k is not None:
                return const(len(k))
            ss = self.segs(t, st)
            if len(ss) == 1 and ss[0][0] == 'each' and len(ss[0][3]) == 1 and ss[0][3][0][0] == 'e' and \
                    ss[0][2].key is not None and core.implies(B.AND(st.pc, ss[0][2].more), ss[0][3][0][1]):
                return mk('app', 'len', ss[0][2].key)
            if len(ss) == 1 and ss[0][0] == 'base':
                return mk('app', 'len', ss[0][2])
            return mk('app', 'len', t, len(ss))
        if is_strc(t):
            return const(len(cval(t)))
        ty = self.typeof(t)
        if ty and any(v[0] == 'k' for v in ty):
            return mk('app', 'len', self.base(t, st))
        return mk('app', 'len', t)

    def compare(self, op, a, b, st, node):
        """V of bool for V op V"""
        if isinstance(op, (ast.In, ast.NotIn)):
            g = FALSE
            for gg, (x, c) in cross([a, b], st.pc):
                g = B.OR(g, B.AND(gg, self.contains(x, c, st)))
            return self.vbool(g if isinstance(op, ast.In) else B.NOT(g))
        g = FALSE
        for gg, (x, y) in cross([a, b], st.pc):
            g = B.OR(g, B.AND(gg, self.cmp_t(op, x, y, st, node)))
        return self.vbool(g)

    def cmp_t(self, op, x, y, st, node):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if y == NONE:
                g = isnone(x)
            elif x == NONE:
                g = isnone(y)
            else:
                g = eq(x, y)
            return g if isinstance(op, ast.Is) else B.NOT(g)
        # emptiness tests written with len()
        for p, q, flip in ((x, y, False), (y, x, True)):
            if p.op == 'app' and p.args[0] == 'len' and is_numc(q) and cval(q) in (0, 1):
                ne = truthy(p.args[1]) if not self.is_seq(p.args[1]) else self.truth_t(p.args[1], st)
                c = cval(q)
                o = type(op)
                if flip:
                    o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(o, o)
                r = {(ast.Eq, 0): B.NOT(ne), (ast.NotEq, 0): ne, (ast.Gt, 0): ne, (ast.GtE, 1): ne,
                     (ast.Lt, 1): B.NOT(ne), (ast.LtE, 0): B.NOT(ne), (ast.Lt, 0): FALSE, (ast.GtE, 0): TRUE}.get((o, c))
                if r is not None:
                    return r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            g = None
            cs = self.classes_of(x)
            if len(cs) == 1 and cs[0].find('__eq__') is not None and y != NONE and \
                    x.op not in ('const', 'enum') and y.op not in ('const', 'enum'):
                v = self.invoke(cs[0].find('__eq__'), [one(x), one(y)], {}, st, node)
                g = self.truth(v, st)
            if g is None:
                g = self.eq_terms(x, y, st)
            return g if isinstance(op, ast.Eq) else B.NOT(g)
        if self.is_seq(x) and self.is_seq(y):
            g = self.lex_lt(x, y, st)
            h = self.lex_lt(y, x, st)
            if g is not None and h is not None:
                if isinstance(op, ast.Lt):
                    return g
                if isinstance(op, ast.Gt):
                    return h
                if isinstance(op, ast.LtE):
                    return B.NOT(h)
                if isinstance(op, ast.GtE):
                    return B.NOT(g)
        if isinstance(op, ast.Lt):
            return lt(x, y)
        if isinstance(op, ast.Gt):
            return lt(y, x)
        if isinstance(op, ast.LtE):
            return B.NOT(lt(y, x))
        if isinstance(op, ast.GtE):
            return B.NOT(lt(x, y))
        return atom('cmp', type(op).__name__, x, y)

    def lex_lt(self, x, y, st):
        a, b = self.known_elems(x, st), self.known_elems(y, st)
        if a is None or b is None or len(a) != len(b):
            return None
        r, pre = FALSE, TRUE
        for p, q in zip(a, b):
            l = self.truth(self.compare(ast.Lt(), p, q, st, None), st)
            e = self.truth(self.compare(ast.Eq(), p, q, st, None), st)
            r = B.OR(r, B.AND(pre, l))
            pre = B.AND(pre, e)
        return r

    def contains(self, x, c, st):
        if c.op == 'members':
            return self.haskey(c, x)
        if c.op == 'keys':
            c = c.args[0]
        if self.is_map(c) or (c, '$d') in st.heap or (c, '$d') in self.static:
            return B.any(g for g, v in self.dict_lookup(c, x, st) if v is not MISSING)
        if self.is_seq(c) or (c, '$l') in st.heap or (c, '$l') in self.static:
            r = FALSE
            for s in self.segs(c, st):
                if s[0] == 'e':
                    for g, t in s[2].ls:
                        r = B.OR(r, B.all([s[1], g, self.eq_terms(x, t, st)]))
                elif s[0] == 'base':
                    r = B.OR(r, B.AND(s[1], atom('haskey', s[2], x)))
                elif s[0] == 'each':
                    ne = self._seg_exists(s, lambda v: B.any(B.AND(g, self.eq_terms(x, t, st)) for g, t in v.ls))
                    r = B.OR(r, B.AND(s[1], atom('haskey', mk('eachseg', s[2].id), x)) if ne is None else ne)
                else:
                    r = B.OR(r, atom('haskey', c, x))
            return r
        if is_strc(c) and is_strc(x):
            return TRUE if cval(x) in cval(c) else FALSE
        if is_str(c) or is_strc(x) and self.typeof(c) is None and c.op not in ('attr',):
            return atom('substr', x, c) if is_str(c) else atom('haskey', self.base(c, st), x)
        return self.haskey(self.base(c, st), x)

    # ------------------------------------------------------------------ names
    def lookup(self, name, st, fr):
        f = fr
        if name in f.locals:
            v = st.heap.get((f.term, name))
            if v is not None:
                return v
            if getattr(f, 'comp_parent', None) is None:
                return one(mk('undef', name))
        env = f.env
        fn = f.func
        if getattr(f, 'comp_parent', None) is not None:
            return self.lookup(name, st, f.comp_parent)
        while env is not None:
            fterm, ffunc, up = env
            if name in ffunc.locals or (fterm, name) in st.heap:
                v = st.heap.get((fterm, name))
                return v if v is not None else one(mk('undef', name))
            env = up
        return self.global_name(fr.module, name, st)

    def global_name(self, m, name, st):
        b = self.prog.lookup(m, name)
        return self.binding(b, m, name, st)

    def binding(self, b, m, name, st):
        if b is None:
            return one(mk('ext', 'builtins.' + name) if hasattr(builtins, name) else mk('glob', m.name, name))
        if b[0] == 'module':
            return one(mk('mod', b[1]))
        if b[0] == 'class':
            return one(mk('cls', b[1]))
        if b[0] == 'func':
            return one(mk('fn', b[1]))
        if b[0] == 'ext':
            return one(mk('ext', self.canon_ext(b[1])))
        if b[0] == 'assign':
            mod, nm, nodes = b[1], b[2], b[3]
            cell = mk('cell', mod, nm)
            if (cell, 'val') in st.heap:
                return st.heap[(cell, 'val')]
            if nm in self.prog.mut_names or len(nodes) != 1 or not isinstance(nodes[0], ast.Assign):
                return one(cell)
            key = (mod, nm)
            if key not in self._cattr:
                self._cattr[key] = one(cell)
                n = nodes[0]
                if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    self._cattr[key] = self.static_eval(n.value, mod, None)
            return self._cattr[key]
        return one(mk('glob', m.name, name))

    @staticmethod
    def canon_ext(d):
        al = {'pd': 'pandas', 'np': 'numpy', 'IOError': 'OSError'}
        h = d.split('.')[0]
        if h in al:
            d = al[h] + d[len(h):]
        return {'builtins.EnvironmentError': 'builtins.OSError', 'builtins.IOError': 'builtins.OSError',
                'portalocker.exceptions.AlreadyLocked': 'portalocker.AlreadyLocked',
                'portalocker.exceptions.LockException': 'portalocker.LockException',
                'portalocker.LockFlags.EXCLUSIVE': 'portalocker.LOCK_EX',
                'portalocker.LockFlags.NON_BLOCKING': 'portalocker.LOCK_NB',
                'portalocker.LockFlags.SHARED': 'portalocker.LOCK_SH',
                'portalocker.constants.LOCK_EX': 'portalocker.LOCK_EX',
                'os.SEEK_END': 'os.SEEK_END', 'io.SEEK_END': 'os.SEEK_END'}.get(d, d)

    def static_eval(self, expr, module, cls):
        """evaluate a module/class level constant expression once; its objects live in the static heap"""
        saved = (self.excs, self.mute, self.n, self.lstack)
        self.excs, self.mute = [], self.mute + 1
        self.n = self.STATIC + len(self.static) * 50 + 7
        st = St({}, TRUE)
        fr = Frame(None, mk('frame', 's', self.n), None, module, cls, None)
        self.calls.append(fr)
        loops = self.lstack
        self.setl(())
        try:
            if cls is not None:
                fr.cls_scope = cls
            v = self.ev(expr, st, fr)
        finally:
            self.calls.pop()
            self.excs, self.mute, self.n = saved[0], saved[1], saved[2]
            self.setl(loops)
        self.static.update(st.heap)
        return v

    # ------------------------------------------------------------------ attributes
    def class_attr(self, c, name, st):
        """class-level attribute (not a method)"""
        fa = c.find_attr(name)
        if fa is None:
            return None
        owner, expr = fa
        if owner.is_enum and any(k == name for k, _ in owner.members):
            return one(mk('enum', owner, name))
        ct = mk('cls', owner)
        if (ct, name) in st.heap:
            return st.heap[(ct, name)]
        if self.ty.singletons.get(owner) == name:
            return one(mk('single', owner))
        if name in self.prog.mut_names and not self._only_instance_writes(owner, name):
            ep = self.epoch(st)
            return V([(g, mk('cattr', owner, name, cval(t))) for g, t in ep.ls])
        key = (owner, name)
        if key not in self._cattr:
            self._cattr[key] = one(mk('cattr', owner, name, 0))
            self._cattr[key] = self.static_eval(expr, owner.module, owner)
        return self._cattr[key]

    def _only_instance_writes(self, c, name):
        """writes to an attribute of this name never target the class"""
        return not any((k, name) in self.ty.cattr and self._cls_written(k, name) for k in c.mro())

    def _cls_written(self, c, name):
        # a store through a class object: 0-CFA records initial value types too, so look at the writers
        for f in self.ty.fwriters.get(name, ()):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)):
                    for v in self.ty.ev(n.value, f.module, f):
                        if v[0] == 'c':
                            return True
        return False

    def getattr(self, t, name, st, node, fr=None):
        """V of attribute `name` of term t"""
        op = t.op
        if t is NONE and not name.startswith('__') and isinstance(node, (ast.Attribute, ast.Call)):
            self.raise_builtin(st, 'AttributeError', TRUE, node)
            return one(mk('undef', 'attr'))
        if op == 'mod':
            m = t.args[0]
            sub = m.name + '.' + name
            if sub in self.prog.modules and name not in m.names:
                return one(mk('mod', self.prog.modules[sub]))
            if name == '__name__' and m.name != 'jqtrade.__main__':
                return one(const(m.name))
            return self.global_name(m, name, st)
        if op == 'ext':
            return one(mk('ext', self.canon_ext(t.args[0] + '.' + name)))
        if op == 'super':
            c, selft = t.args
            for k in c.mro()[1:]:
                if name in k.methods:
                    f = k.methods[name]
                    if f.prop:
                        return self.invoke(f, [one(selft)], {}, st, node)
                    return one(mk('bm', f, selft))
            return one(mk('xm', selft, 'super.' + name))
        if op == 'cls':
            c = t.args[0]
            for k in c.mro():
                v = st.heap.get((mk('cls', k), name))
                if v is not None:
                    return v
            f = c.find(name)
            if f is not None:
                return one(mk('bm', f, t) if f.clsm else mk('fn', f))
            if name == '__members__' and c.is_enum:
                return one(mk('members', c))
            if name == '__name__':
                return one(const(c.name))
            v = self.class_attr(c, name, st)
            if v is not None:
                return v
            return one(mk('cattr', c, name, 0))
        if op == 'enum':
            c, nm = t.args
            if name == 'value':
                e = dict(c.members).get(nm)
                return self.static_eval(e, c.module, c) if e is not None else one(mk('attr', t, 'value', 0))
            if name == 'name':
                return one(const(nm))
        if op in ('fn', 'clos', 'bm') and name in ('__name__', '__module__', '__doc__', '__qualname__'):
            return one(const(t.args[0].name)) if name == '__name__' else one(mk('attr', t, name, 0))
        v = st.heap.get((t, name))
        if v is not None:
            return v
        if op == 'obj' and isinstance(t.args[1], str) and (t.args[1].startswith('x:')):
            return one(mk('xm', t, name)) if name in ('append', 'with_traceback') else one(mk('attr', t, name, 0))
        if op == 'obj' and isinstance(t.args[1], str):
            return one(mk('xm', t, name))
        cs = self.classes_of(t)
        if cs:
            if name == '__class__':
                if len(cs) == 1:
                    return one(mk('cls', cs[0]))
                return one(mk('classof', t))
            if name == '__dict__':
                return one(mk('vars', t))
            outs = []
            seen = {}
            for c in cs:
                f = c.find(name)
                for k in c.mro():
                    hv = st.heap.get((mk('cls', k), name))
                    if hv is not None:
                        f = hv
                        break
                seen.setdefault(f if not isinstance(f, V) else id(f), []).append((c, f))
            if len(seen) > 1 and len(cs) > 1:
                for key, lst in seen.items():
                    g = B.any(isinst(t, c) for c, _ in lst)
                    # candidates are exhaustive: the last one takes the rest
                    outs.append((g, lst[0][0], lst[0][1]))
                rest = TRUE
                fixed = []
                for i, (g, c, f) in enumerate(outs):
                    g2 = B.AND(rest, g) if i < len(outs) - 1 else rest
                    rest = B.AND(rest, B.NOT(g))
                    fixed.append((g2, c, f))
                outs = fixed
            else:
                (_, lst), = list(seen.items())[:1]
                outs = [(TRUE, lst[0][0], lst[0][1])]
            if len(outs) == 1:
                return self._member(t, outs[0][1], outs[0][2], name, st, node)
            res = []
            sts = []
            for g, c, f in outs:
                s2 = st.fork()
                s2.pc = B.AND(st.pc, g)
                if s2.dead:
                    continue
                v = self._member(t, c, f, name, s2, node)
                sts.append((s2, v))
            s, v = self.merge_v(sts)
            st.become(s)
            return v
        ep = self.epoch(st)
        if len(ep.ls) == 1 and (cval(ep.ls[0][1]) == 0 or self.fresh_source(t) or self.ty.field_final(name)):
            return one(mk('attr', t, name, 0))
        return V([(g, mk('attr', t, name, 0 if self.ty.field_final(name) else cval(e))) for g, e in ep.ls])

    def _member(self, t, c, f, name, st, node):
        if isinstance(f, V):
            # a method replaced on the class object: plain functions are bound to the instance
            out = []
            for g, x in f.ls:
                if x.op == 'clos' or x.op == 'fn' and not x.args[0].static:
                    self.n += 1
                    self.partials[self.n] = (one(x), [one(t)], {})
                    x = mk('partial', self.n)
                out.append((g, x))
            return V(out)
        if f is not None:
            if f.prop:
                return self.invoke(f, [one(t)], {}, st, node)
            if f.static:
                return one(mk('fn', f))
            if f.clsm:
                return one(mk('bm', f, mk('cls', c)))
            return one(mk('bm', f, t))
        if t.op != 'obj' or self._is_field(c, name):
            if self._is_field(c, name):
                if t.op == 'obj' and not isinstance(t.args[1], Class):
                    return one(mk('attr', t, name, 0))
                if t.op == 'obj':
                    v = self.class_attr(c, name, st)
                    if v is not None:
                        return v
                final = self.ty.field_final(name)
                ep = self.epoch(st)
                ft = {v for k in c.mro() for v in self.ty.field.get((k, name), ()) if v != ('p', 'None')}
                if len(ft) == 1:
                    (v0,) = ft
                    if v0[0] == 'i' and v0[1] in self.ty.singletons:
                        k = v0[1]
                        return st.heap.get((mk('cls', k), self.ty.singletons[k])) or one(mk('single', k))
                return vnorm([(g, mk('attr', t, name, 0 if final else cval(e))) for g, e in ep.ls])
        v = self.class_attr(c, name, st)
        if v is not None:
            return v
        if any(b in ('dict', 'list', 'str', 'collections.OrderedDict') for b in c.ext_bases()) or c.is_enum:
            return one(mk('xm', t, name)) if not (c.is_enum and name in ('value', 'name')) else one(mk('attr', t, name, 0))
        return one(mk('attr', t, name, 0))

    def _is_field(self, c, name):
        return any((k, name) in self.ty.field for k in c.mro()) or \
            any((k, name) in self.ty.field for k in self.prog.subclasses(c))

    def setattr(self, t, name, v, st, node):
        cs = self.classes_of(t)
        for c in cs[:1]:
            s = c.find_setter(name)
            if s is not None:
                self.invoke(s, [one(t), v], {}, st, node)
                return
        if t.op == 'mod':
            t2 = mk('cell', t.args[0], name)
            self.event('set', st, name, t, [v], node=node)
            st.put((t2, 'val'), v)
            return
        if t.op == 'cls':
            # writes go to the class that owns the attribute when it is the same cell
            c = t.args[0]
            fa = c.find_attr(name)
            if fa is not None and fa[0] is not c and (c, name) not in self.ty.cattr:
                pass
        self.event('set', st, name, t, [v], node=node)
        st.put((t, name), v)

    # ------------------------------------------------------------------ subscripts
    def sub_load(self, t, k, st, node, must=True):
        """V of t[k]; a missing key raises KeyError"""
        if t.op == 'members':
            c = t.args[0]
            g = self.haskey(t, k)
            self.raise_builtin(st, 'KeyError', B.NOT(g), node)
            if is_strc(k):
                return one(mk('enum', c, cval(k)))
            return one(mk('enumby', c, k))
        if t.op == 'cls' and t.args[0].is_enum:
            c = t.args[0]
            g = self.haskey(mk('members', c), k)
            self.raise_builtin(st, 'KeyError', B.NOT(g), node)
            return one(mk('enum', c, cval(k)) if is_strc(k) else mk('enumby', c, k))
        if t.op == 'vars':
            if is_strc(k):
                return self.getattr(t.args[0], cval(k), st, node)
            return one(mk('item', t, k))
        if t.op in ('cat', 'fmt') or is_str(t):
            if is_strc(t) and is_numc(k) and isinstance(cval(k), int) and -len(cval(t)) <= cval(k) < len(cval(t)):
                return one(const(cval(t)[cval(k)]))
            return one(mk('app', 'getitem', t, k))
        if t in self.ucopy and is_strc(k):
            self.as_map(t, st)
        seq = self.is_seq(t) or (t, '$l') in st.heap and t not in self.asmap or (t, '$l') in self.static
        mp = self.is_map(t) or (t, '$d') in st.heap or (t, '$d') in self.static
        if seq and not mp:
            return self.seq_index(t, k, st, node)
        if mp or self.isdict(t) or not is_numc(k):
            if k.op == 'idx' and k.args[0] is self.strip_key(t) and not mp:
                return one(mk('elem', k.args[0], k.args[1]))
            if k.op in ('lin', 'idx') or (is_num(k) and not mp and not self.isdict(t)):
                return one(mk('item', self.base(t, st), k))
            outs, miss = [], FALSE
            for g, v in self.dict_lookup(t, k, st):
                if v is MISSING:
                    miss = B.OR(miss, g)
                else:
                    outs.extend((B.AND(g, g2), t2) for g2, t2 in v.ls)
            if must and sat(B.AND(st.pc, miss)):
                self.raise_builtin(st, 'KeyError', miss, node)
            return vnorm(outs) if outs else one(mk('undef', 'item'))
        return self.seq_index(t, k, st, node)

    def seq_index(self, t, k, st, node):
        ss = self.segs(t, st)
        if k.op == 'idx' and len(ss) == 1 and ss[0][0] == 'base' and self.strip_key(ss[0][2]) is k.args[0]:
            return one(mk('elem', k.args[0], k.args[1]))
        if is_numc(k) and isinstance(cval(k), int):
            i = cval(k)
            es = self.known_elems(t, st)
            if es is not None:
                if -len(es) <= i < len(es):
                    return es[i]
                self.raise_builtin(st, 'IndexError', TRUE, node)
                return one(mk('undef', 'index'))
            if i >= 0 and len(ss) > i and all(s[0] == 'e' and core.implies(st.pc, s[1]) for s in ss[:i + 1]):
                return ss[i][2]
            if i < 0 and len(ss) >= -i and all(s[0] == 'e' and core.implies(st.pc, s[1]) for s in ss[i:]):
                return ss[i][2]
            if len(ss) == 1 and ss[0][0] == 'base':
                if self.itry and isinstance(node, ast.Subscript) and isinstance(node.ctx, ast.Load):
                    # an error that is expected here: the handler names it
                    self.raise_builtin(st, 'IndexError', B.NOT(self.cmp_t(ast.Gt() if i >= 0 else ast.GtE(), self.len_t(t, st), const(i if i >= 0 else -i), st, node)), node)
                return one(mk('item', ss[0][2], k))
            if len(ss) == 1 and ss[0][0] == 'each' and len(ss[0][3]) == 1 and ss[0][3][0][0] == 'e':
                # element i of a mapped list: the mapping applied to element i of the source
                L, sub = ss[0][2], ss[0][3][0]
                if L.key is not None and core.implies(B.AND(st.pc, L.more), sub[1]):
                    return self.subst_v(sub[2], {mk('elem', L.key, L.occ): mk('item', L.key, k)})
            # guarded elements: position depends on the guards
            outs, rem = [], [(st.pc, i)]
            if i >= 0:
                for s in ss:
                    nxt = []
                    for g, n in rem:
                        if s[0] != 'e':
                            outs.append((g, mk('item', t, k, len(ss))))
                            continue
                        h = B.AND(g, s[1])
                        if sat(h):
                            if n == 0:
                                outs.extend((B.AND(h, g2), t2) for g2, t2 in s[2].ls)
                            else:
                                nxt.append((h, n - 1))
                        h = B.AND(g, B.NOT(s[1]))
                        if sat(h):
                            nxt.append((h, n))
                    rem = nxt
                for g, n in rem:
                    self.raise_builtin(st, 'IndexError', g, node)
                if outs:
                    return vnorm(outs)
        if len(ss) == 1 and ss[0][0] == 'base':
            return one(mk('item', ss[0][2], k))
        return one(mk('item', t, k, len(ss)))

    def subst_v(self, v, m):
        memo = {}
        return vnorm([(self.subst_g(g, m, memo), self.subst_t(t, m, memo)) for g, t in v.ls])

    def subst_t(self, t, m, memo):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is not None:
            return r
        if not any(x in m for x in subterms(t)):
            memo[t] = t
            return t

        def go(a):
            if isinstance(a, T):
                return self.subst_t(a, m, memo)
            if isinstance(a, tuple):
                return tuple(go(x) for x in a)
            return a
        if t.op == 'cat':
            r = cat(list(go(t.args[0])))
        elif t.op == 'lin':
            r = core.mklin(t.args[0], {go(k): c for k, c in t.args[1]})
        else:
            r = mk(t.op, *[go(a) for a in t.args])
        memo[t] = r
        return r

    def subst_g(self, g, m, memo):
        if g <= 1:
            return g
        r = memo.get(('g', g))
        if r is None:
            v, lo, hi = B.nodes[g]
            a = B.atom_of[v]
            if any(x in m for x in subterms(a)):
                na = self.reatom(self.subst_args(a, m, memo))
            else:
                na = B.mk(v, FALSE, TRUE)
            r = B.ite(na, self.subst_g(hi, m, memo), self.subst_g(lo, m, memo))
            memo[('g', g)] = r
        return r

    def subst_args(self, a, m, memo):
        return mk(a.op, *[self.subst_t(x, m, memo) if isinstance(x, T) else x for x in a.args])

    @staticmethod
    def reatom(a):
        if a.op == 'eqc':
            return eqc(a.args[0], a.args[1])
        if a.op == 'eqn':
            return eq(a.args[0], const(a.args[1]) if isinstance(a.args[1], Fraction) else a.args[1])
        if a.op == 'lt':
            return lt(a.args[0], const(a.args[1]))
        if a.op == 'isnone':
            return isnone(a.args[0])
        if a.op == 'truthy':
            return truthy(a.args[0])
        if a.op == 'isinst':
            return isinst(a.args[0], a.args[1])
        if a.op == 'starts':
            return startswith(a.args[0], a.args[1])
        if a.op == 'ends':
            return endswith(a.args[0], a.args[1])
        return B.var(a, Atoms.loops)

    def sub_store(self, t, kv, v, st, node):
        for g, t2 in [(TRUE, t)]:
            self.event('setitem', st, '[]', t2, [kv, v], node=node)
            if t2 in self.ucopy and any(is_strc(k) for _, k in leaves(kv, st.pc)):
                self.as_map(t2, st)
            if not self.is_map(t2) and (self.is_seq(t2) or (t2, '$l') in st.heap and not (t2, '$d') in st.heap):
                st.put((t2, '$l'), Segs([('unk', TRUE)]))
                return
            if t2.op == 'vars':
                for kg, kt in leaves(kv, st.pc):
                    if is_strc(kt):
                        st.put((t2.args[0], cval(kt)), v)
                return
            st.put((t2, '$d'), Ops(self.ops(t2, st) + (('set', st.pc, kv, v),)))

    # ------------------------------------------------------------------ iteration
    def strip_key(self, t):
        """the collection whose elements an iterable term yields"""
        while t.op == 'app' and t.args[0] in ('list', 'tuple', 'sorted', 'reversed', 'set', 'copy', 'iter', 'copy.copy',
                                              'copy.deepcopy', 'frozenset') and len(t.args) > 1 and isinstance(t.args[1], T):
            t = t.args[1]
        return t

    def iterate(self, t, st, node):
        """descriptors of what iterating over t yields:
        ('e', g, V) one element, ('g', g, key, fn, raw, src) a generic element fn(L) -> (guard, V)"""
        if t.op == 'members':
            return [('e', TRUE, one(const(nm))) for nm, _ in t.args[0].members]
        if t.op == 'cls' and t.args[0].is_enum:
            return [('e', TRUE, one(mk('enum', t.args[0], nm))) for nm, _ in t.args[0].members]
        if t.op == 'keys' or t.op == 'values' or t.op == 'items':
            return self.iter_dict(t.args[0], t.op, st, t)
        if t.op == 'range':
            a = t.args
            if all(is_numc(x) and isinstance(cval(x), int) for x in a) and len(range(*[cval(x) for x in a])) <= 12:
                return [('e', TRUE, one(const(i))) for i in range(*[cval(x) for x in a])]
            if a[0] == const(0) and a[2] == const(1):
                n = a[1]
                if n.op == 'app' and n.args[0] == 'len':
                    key = self.strip_key(n.args[1])
                    return [('g', TRUE, key, lambda L: (TRUE, one(mk('idx', L.key, L.occ))), t, None)]
            return [('g', TRUE, t, lambda L: (TRUE, one(mk('idx', L.key, L.occ))), t, None)]
        if t.op == 'enumerate':
            out, i, fixed = [], 0, True
            start = t.args[1]
            for d in self.iterate(t.args[0], st, node):
                if d[0] == 'e':
                    if fixed and core.implies(st.pc, d[1]):
                        iv = one(add(const(i), start))
                        i += 1
                    else:
                        fixed = False
                        iv = one(mk('app', 'index', d[2].ls[0][1]))
                    out.append(('e', d[1], one(self.pair(st, iv, d[2]))))
                else:
                    fixed = False

                    def fn(L, d=d, s=st):
                        g, v = d[3](L)
                        return g, one(self.pair(self.cur, one(add(mk('idx', L.key, L.occ), start)), v))
                    out.append(('g', d[1], d[2], fn, d[4], d[5]))
            return out
        if t.op == 'zip':
            its = [self.iterate(a, st, node) for a in t.args]
            if all(all(d[0] == 'e' and core.implies(st.pc, d[1]) for d in it) for it in its):
                return [('e', TRUE, one(self.pair(st, *[d[2] for d in ds]))) for ds in zip(*its)]
            if all(len(it) == 1 and it[0][0] == 'g' for it in its):
                def fn(L):
                    vs = []
                    for j, it in enumerate(its):
                        k = it[0][2]
                        if k is L.key:
                            vs.append(it[0][3](L)[1])
                        else:
                            L2 = Loop(L.id, 'zip', k, k, node, None)
                            L2.occ = ('z', L.occ)
                            vs.append(it[0][3](L2)[1])
                    return TRUE, one(self.pair(self.cur, *vs))
                return [('g', TRUE, its[0][0][2], fn, t, None)]
            return [('g', TRUE, t, lambda L: (TRUE, one(mk('elem', L.key, L.occ))), t, None)]
        if t.op == 'app' and t.args[0] in ('sorted', 'reversed', 'list', 'tuple', 'set', 'iter', 'copy', 'copy.copy') \
                and len(t.args) > 1 and isinstance(t.args[1], T):
            src = t.args[1]
            ds = self.iterate(src, st, node)
            if len(ds) == 1 and ds[0][0] == 'g':
                return [ds[0][:4] + (t,) + ds[0][5:]]
            if all(d[0] == 'e' for d in ds) and t.args[0] in ('list', 'tuple', 'iter', 'copy'):
                return ds
            if all(d[0] == 'e' for d in ds) and t.args[0] == 'reversed':
                return ds[::-1]
            return [('g', TRUE, t, lambda L: (TRUE, one(mk('elem', L.key, L.occ))), t, None)]
        if self.is_map(t) or ((t, '$d') in st.heap and (t, '$l') not in st.heap) or (t, '$d') in self.static:
            return self.iter_dict(t, 'keys', st, t)
        if self.is_seq(t) or (t, '$l') in st.heap or (t, '$l') in self.static:
            out = []
            for s in self.segs(t, st):
                if s[0] == 'e':
                    out.append(s)
                elif s[0] == 'each':
                    out.extend(self._each_desc(s, t))
                elif s[0] == 'base':
                    key = self.strip_key(s[2])
                    out.append(('g', s[1], key, lambda L: (TRUE, one(mk('elem', L.key, L.occ))), t, None))
                else:
                    out.append(('g', s[1], mk('contents', t, len(out)),
                                lambda L: (TRUE, one(mk('elem', L.key, L.occ))), t, None))
            return out
        if self.isdict(t):
            return self.iter_dict(t, 'keys', st, t)
        if is_strc(t):
            return [('e', TRUE, one(const(c))) for c in cval(t)]
        b = self.base(t, st)
        return [('g', TRUE, self.strip_key(b), lambda L: (TRUE, one(mk('elem', L.key, L.occ))), t, None)]

    def _each_desc(self, s, raw, outer=TRUE):
        L0 = s[2]
        out = []
        for sub in s[3]:
            if sub[0] == 'e':
                out.append(('g', s[1], L0.key or mk('loop', L0.id), lambda L, sub=sub: (sub[1], sub[2]), raw, L0))
            elif sub[0] == 'each':
                out.extend(self._each_desc((sub[0], B.AND(s[1], sub[1]), sub[2], sub[3]), raw))
            else:
                out.append(('g', s[1], mk('segpart', L0.id), lambda L: (TRUE, one(mk('elem', L.key, L.occ))), raw, None))
        return out

    def iter_dict(self, d, what, st, raw):
        out = []

        def res(k, v):
            if what == 'keys':
                return k
            if what == 'values':
                return v
            return one(self.pair(self.cur, k, v))
        if not self.is_map(d) and (d, '$d') not in self.static:
            b = self.base(d, st)

            def fn(L):
                k = mk('key', L.key, L.occ)
                return TRUE, res(one(k), one(mk('item', L.key, k)))
            out.append(('g', TRUE, b, fn, raw, None))
        for o in self.ops(d, st):
            if o[0] == 'set':
                self.cur = st
                if len(o[2].ls) == 1 and any(x[0] == 'e' and len(x) > 3 and x[3] == o[2] for x in out):
                    out = [x if not (x[0] == 'e' and len(x) > 3 and x[3] == o[2]) else
                           ('e', B.OR(x[1], o[1]), res(o[2], o[3]), o[2]) for x in out]
                else:
                    out.append(('e', o[1], res(o[2], o[3]), o[2]))
            elif o[0] == 'clear':
                if core.implies(st.pc, o[1]):
                    out = []
            elif o[0] == 'upd':
                def fn2(L, src=o[2]):
                    k = mk('key', L.key, L.occ)
                    return TRUE, res(one(k), one(mk('item', L.key, k)))
                out.append(('g', o[1], o[2], fn2, raw, None))
            elif o[0] == 'each':
                L0 = o[2]
                for sub in o[3]:
                    if sub[0] == 'set':
                        out.append(('g', o[1], L0.key or mk('loop', L0.id),
                                    lambda L, sub=sub: (sub[1], res(sub[2], sub[3])), raw, L0))
        return out

    def pair(self, st, *vs):
        return self.tuple_of(st, vs)

    # ------------------------------------------------------------------ loops
    def run_desc(self, descs, st, fr, node, body, ctx):
        """run body(st, V, L or None) for every descriptor; continue states are joined, break states stay in ctx"""
        for d in descs:
            if st.dead:
                return
            g = B.AND(st.pc, d[1])
            if not sat(g):
                continue
            skip = None
            if not core.implies(st.pc, d[1]):
                skip = st.fork()
                skip.pc = B.AND(st.pc, B.NOT(d[1]))
                st.pc = g
            if d[0] == 'e':
                ctx.cnts = []
                self.cur = st
                body(st, d[2], None)
                st.become(self.merge([st] + ctx.cnts))
                ctx.cnts = []
            else:
                def head(s, L, d=d):
                    s.pc = B.AND(s.pc, L.more)
                    self.cur = s
                    gg, v = d[3](L)
                    s.pc = B.AND(s.pc, gg)
                    L.filt = gg
                    if not s.dead:
                        body(s, v, L)
                self.generic(st, fr, node, 'for', d[2], d[4], head, None, ctx, d[5])
            if skip is not None:
                st.become(self.merge([st, skip]))

    def collectors(self, fr):
        """(object, attribute) pairs of the lists that receive abrupt exits of the code running in fr"""
        out = [(fr, 'rets')]
        if fr.loop is not None:
            out += [(fr.loop, 'brks'), (fr.loop, 'cnts')]
        if fr.sink is not None:
            out += [(fr.sink, 'brks'), (fr.sink, 'excs')]
        if fr.consumer is not None:
            out += self.collectors(fr.consumer)
        return out

    def generic(self, st, fr, node, kind, key, raw, head, exitcond, ctx, src=None):
        """one generic iteration; st becomes the state after normal exhaustion"""
        pc0 = st.pc
        self.n += 1
        lid = self.n
        occ = self.occ.get(key, 0)
        self.occ[key] = occ + 1
        L = Loop(lid, kind, key, raw, node, fr.func)
        L.occ = src.occ if src is not None else occ
        L.src = src
        L.pc = pc0
        L.parents = self.lstack
        outer = self.lstack
        self.setl(outer + (L,))
        if kind == 'for':
            L.more = atom('more', lid)
        mod = {}
        own = mk('elem', key, L.occ)
        owned = {}
        start_n = self.n
        L.made = (start_n, None)
        saved_occ = dict(self.occ)
        saved = {}

        def setup(s):
            for k, (init, mu) in mod.items():
                cur = init
                if isinstance(cur, V):
                    s.put(k, one(mu))
                elif isinstance(cur, Segs):
                    s.put(k, Segs(cur + (('mu', TRUE, L),)))
                else:
                    s.put(k, Ops(cur + (('mu', TRUE, L),)))

        def run(s):
            """returns joined state at the back edge; abrupt exits are left in local lists"""
            cols = self.collectors(fr)
            cols = [(o, a) for o, a in cols if o is not ctx]
            keep = [(o, a, getattr(o, a)) for o, a in cols]
            for o, a in cols:
                setattr(o, a, [])
            kb, kc = ctx.brks, ctx.cnts
            ctx.brks, ctx.cnts = [], []
            ke, self.excs = self.excs, []
            head(s, L)
            end = self.merge([s] + ctx.cnts)
            got = {'brks': ctx.brks, 'excs': self.excs, 'cols': [(o, a, getattr(o, a)) for o, a in cols]}
            ctx.brks, ctx.cnts = kb, kc
            self.excs = ke
            for o, a, v in keep:
                setattr(o, a, v)
            return end, got

        for _ in range(5):
            self.n, self.occ = start_n, dict(saved_occ)
            s = st.fork()
            setup(s)
            h0 = dict(s.heap)
            self.mute += 1
            try:
                end, got = run(s)
            finally:
                self.mute -= 1
            new = False
            if end.dead:
                heaps = []
            else:
                heaps = [end.heap]
            for h in heaps:
                for k, v in h.items():
                    if k in mod and not isinstance(v, V):
                        continue
                    o = k[0]
                    if o.op in ('obj', 'frame') and isinstance(o.args[0], int) and o.args[0] > start_n and \
                            o.args[0] < self.STATIC:
                        continue
                    if kind == 'for' and (o is own or L.owns(o)):
                        # the elements of a container are taken to be different objects
                        if k in h0 and h0[k] is not v and h0[k] != v:
                            owned[k] = v
                        continue
                    if o.op == 'static' and k not in h0:
                        init = one(const(0))
                    elif k in h0:
                        init = h0[k]
                    else:
                        init = self.default(k)
                    if init is None or k in mod:
                        continue
                    if init is v or init == v:
                        continue
                    if type(init) is not type(v):
                        continue
                    mu = mk('mu', lid, k[1], o)
                    if isinstance(init, V):
                        tys = set()
                        ok = True
                        for _, t in list(init.ls) + list(v.ls):
                            if t is mu:
                                continue
                            x = self.typeof(t)
                            if x is None:
                                ok = False
                            else:
                                tys |= x
                        if k[0].op not in ('frame', 'obj', 'static'):
                            x = self.typeof(mk('attr', k[0], k[1], 0))
                            ok, tys = (x is not None), (x or set())
                        for q in (mu, mk('muout', lid, k[1], o)):
                            self._tymemo[q] = tys if ok else None
                        if o is self.EPOCH:
                            # inside the loop any number of callbacks may have run
                            mu = const(lid)
                    mod[k] = (init, mu)
                    new = True
            if not new:
                break
        # index loops written with while: i = 0; while i < len(xs): ...; i += 1
        idx = {}
        if kind == 'while' and not end.dead:
            for k, (init, mu) in mod.items():
                if isinstance(init, V) and isinstance(end.heap.get(k), V) and init == one(const(0)) and \
                        end.heap[k] == one(add(mu, const(1))):
                    for v in B.support(end.pc):
                        a = B.atom_of[v]
                        if a.op == 'lt' and a.args[0].op == 'lin':
                            d = dict(a.args[0].args[1])
                            others = [x for x in d if x is not mu]
                            if mu in d and len(others) == 1 and others[0].op == 'app' and others[0].args[0] == 'len' \
                                    and a.args[1] == 0:
                                idx[k] = others[0].args[1]
        if len(idx) == 1:
            (k, xs), = idx.items()
            L.key = self.strip_key(xs)
            occ = saved_occ.get(L.key, 0)
            saved_occ[L.key] = occ + 1
            L.occ = occ
            L.raw = xs
            init, mu = mod[k]
            mod[k] = (init, mk('idx', L.key, occ))
        # the real pass
        self.n, self.occ = start_n, dict(saved_occ)
        L.first = self.clock + 1
        s = st.fork()
        setup(s)
        if not self.mute:
            self.loops.append(L)
        end, got = run(s)
        L.last = self.clock
        L.end_pc = end.pc
        self.setl(outer)
        abr = {}
        for nm, lst in [('brk', got['brks']), ('exc', got['excs'])] + [(a + str(i), l) for i, (o, a, l) in enumerate(got['cols'])]:
            if any(not (x[0] if isinstance(x, tuple) else x).dead for x in lst):
                abr[nm] = atom('abrupt', lid, nm)
        suffix = {}
        for k, (init, mu) in mod.items():
            nxt = end.heap.get(k, init) if not end.dead else None
            if isinstance(init, V):
                L.mod[k] = (init, nxt, mu)
            else:
                pre = len(init) + 1
                if nxt is None:
                    suffix[k] = ()
                elif len(nxt) >= pre and nxt[pre - 1][0] == 'mu' and tuple(nxt[:pre - 1]) == tuple(init):
                    suffix[k] = tuple(nxt[pre:])
                    if L.filt != TRUE:      # guards are relative to the path condition: the filter of the element is part of it
                        suffix[k] = tuple((x[0], B.AND(x[1], L.filt)) + tuple(x[2:]) for x in suffix[k])
                else:
                    suffix[k] = None
                L.mod[k] = (init, nxt, None)

        def settle(s):
            """replace loop markers in an abrupt state"""
            for k, sf in suffix.items():
                v = s.heap.get(k)
                if v is None:
                    continue
                out = []
                for x in v:
                    if x[0] == 'mu' and x[2] is L:
                        if sf is None:
                            out.append(('unk', x[1]) if isinstance(v, Segs) else ('each', x[1], L, ()))
                        elif sf:
                            out.append(('each', x[1], L, sf))
                    else:
                        out.append(x)
                s.put(k, type(v)(out))

        exits = {}

        def fin(s, nm):
            settle(s)
            exits[nm] = B.OR(exits.get(nm, FALSE), s.pc)
            s.pc = B.AND(s.pc, abr[nm])
        for nm, lst in (('brk', got['brks']), ('exc', got['excs'])):
            for x in lst:
                s = x[0] if isinstance(x, tuple) else x
                if s.dead:
                    continue
                fin(s, nm)
        ctx.brks = ctx.brks + [x for x in got['brks'] if not x.dead]
        self.excs.extend(x for x in got['excs'] if not x[0].dead)
        for i, (o, a, lst) in enumerate(got['cols']):
            for x in lst:
                s = x[0] if isinstance(x, tuple) else x
                if not s.dead:
                    fin(s, a + str(i))
            getattr(o, a).extend(x for x in lst if not (x[0] if isinstance(x, tuple) else x).dead)
        # an iteration that leaves the loop is its last one
        for nm, g in exits.items():
            core.FACTS[B.nodes[abr[nm]][0]] = g
        # normal exhaustion
        ex = st
        for a in abr.values():
            ex.pc = B.AND(ex.pc, B.NOT(a))
        for k, (init, mu) in mod.items():
            if isinstance(init, V):
                nxt = L.mod[k][1]
                if k[0] is self.EPOCH:
                    self.n += 1
                    ex.put(k, one(const(lid)))
                    continue
                cs = None
                if nxt is not None and len(init.ls) == 1:
                    vals = {t for _, t in nxt.ls if t is not mu}
                    if len(vals) == 1 and next(iter(vals)).op in ('const', 'enum'):
                        cs = next(iter(vals))
                if nxt is None:
                    ex.put(k, init)
                elif cs is not None:
                    e = atom('ever', lid, k[1])
                    L.ever = getattr(L, 'ever', {})
                    L.ever[k] = (e, B.any(g for g, t in nxt.ls if t is cs))
                    core.FACTS[B.nodes[e][0]] = B.AND(end.pc, L.ever[k][1])
                    ex.put(k, vnorm([(e, cs), (B.NOT(e), init.ls[0][1])]))
                else:
                    out = mk('muout', lid, k[1], k[0])
                    if mu.op == 'mu' and all(t is mu or is_str(t) for _, t in init.ls + nxt.ls):
                        core.STRS |= {mu, out}
                    core.MUOUT[out] = tuple({t for _, t in init.ls + nxt.ls if t is not mu})
                    ex.put(k, one(out))
            elif isinstance(init, Segs):
                sf = suffix[k]
                ex.put(k, Segs(init + ((('each', TRUE, L, sf),) if sf else ()) if sf is not None else
                               tuple(init) + (('unk', TRUE),)))
            else:
                sf = suffix[k]
                ex.put(k, Ops(init + ((('each', TRUE, L, sf),) if sf else ()) if sf is not None else
                              tuple(init) + (('each', TRUE, L, ()),)))
        # locals first bound inside the loop
        if not end.dead:
            for k, v in end.heap.items():
                if k not in ex.heap and k[0].op == 'frame' and k[0].args[0] <= start_n and isinstance(v, V):
                    if all(is_str(t) for _, t in v.ls):
                        core.STRS.add(mk('muout', lid, k[1], k[0]))
                    ex.put(k, one(mk('muout', lid, k[1], k[0])))
                elif k not in ex.heap and (k[0].op == 'frame' and k[0].args[0] <= start_n):
                    ex.put(k, v)
        # objects made in the loop: one per pass, the values are those at the end of its pass
        L.made = (start_n, self.n)
        if not end.dead:
            for k, v in end.heap.items():
                o = k[0]
                if o.op == 'obj' and isinstance(o.args[0], int) and start_n < o.args[0] <= self.n and k not in ex.heap:
                    ex.put(k, v)
            for k in owned:
                if isinstance(owned[k], V):
                    ex.put(k, one(mk('muout', lid, k[1], k[0])))
        if exitcond is not None and not ex.dead:
            exitcond(ex, L)
        return L

    # ------------------------------------------------------------------ statements
    def block(self, body, st, fr):
        for n in body:
            if st.dead:
                return
            self.ex(n, st, fr)

    def ex(self, n, st, fr):
        m = getattr(self, 'ex_' + type(n).__name__, None)
        if m is None:
            self.stats['unsupported'].append((fr.module.path, getattr(n, 'lineno', 0), type(n).__name__))
            return
        m(n, st, fr)

    def ex_Expr(self, n, st, fr):
        if not isinstance(n.value, ast.Constant):
            self.ev(n.value, st, fr)

    def ex_Pass(self, n, st, fr):
        pass

    def ex_Global(self, n, st, fr):
        pass

    ex_Nonlocal = ex_Global

    def ex_Import(self, n, st, fr):
        for nm, b in self.prog.import_bindings(fr.module, n):
            v = self.binding(self.prog.deref(fr.module, nm, b), fr.module, nm, st)
            st.put((fr.term, nm), v)

    ex_ImportFrom = ex_Import

    def ex_FunctionDef(self, n, st, fr):
        f = self.prog.by_node[n]
        t = mk('clos', f, (fr.term, fr.func, fr.env))
        self.defaults(f, t, st, fr)
        v = one(t)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, fr)
            if all(t2.op == 'ext' for _, t2 in dv.ls) or f.ctxmgr:
                continue
            v = self.call(dv, [v], {}, st, fr, n)
        st.put((fr.term, n.name), v)

    def defaults(self, f, t, st, fr):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for arg, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            st.put((t, '$def_' + arg.arg), self.ev(d, st, fr))

    def ex_ClassDef(self, n, st, fr):
        c = self.prog.by_node.get(n)
        st.put((fr.term, n.name), one(mk('cls', c) if isinstance(c, Class) else mk('undef', n.name)))

    def ex_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else one(NONE)
        if not st.dead:
            fr.rets.append((st.fork(), v))
        st.pc = FALSE

    def ex_Raise(self, n, st, fr):
        if n.exc is None:
            v = self.handling[-1] if self.handling else one(mk('exc', 'bare', 'raise'))
        else:
            v = self.ev(n.exc, st, fr)
            out = []
            for g, t in leaves(v, st.pc):
                if t.op == 'cls':
                    s2 = st.fork()
                    s2.pc = B.AND(st.pc, g)
                    out.append((g, self.construct(t.args[0], [], {}, st, n).ls[0][1]))
                elif t.op == 'ext':
                    out.append((g, self.new('x:' + t.args[0])))
                else:
                    out.append((g, t))
            v = vnorm(out) if out else v
        if st.dead:
            return
        self.event('raise', st, 'raise', args=[v], node=n)
        self.raise_now(st, v, n)

    def ex_Assert(self, n, st, fr):
        g = self.cond(n.test, st, fr)
        self.raise_builtin(st, 'AssertionError', B.NOT(g), n)

    def ex_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                if isinstance(t.slice, ast.Slice) and t.slice.lower is None and t.slice.upper is None and len(o.ls) == 1 and not self.isdict(o.ls[0][1]) and not self.is_map(o.ls[0][1]):
                    self.event('clear', st, 'clear', o.ls[0][1], node=t)
                    st.put((o.ls[0][1], '$l'), Segs())
                    continue
                k = self.ev(t.slice, st, fr)
                for g, ot in leaves(o, st.pc):
                    for kg, kt in leaves(k, st.pc):
                        if self.is_seq(ot) or is_numc(kt) and not self.isdict(ot) and not self.is_map(ot):
                            self.meth_list(ot, 'pop', [one(kt)], {}, st, t)
                            continue
                        miss = B.any(gg for gg, v in self.dict_lookup(ot, kt, st) if v is MISSING)
                        self.raise_builtin(st, 'KeyError', B.all([g, kg, miss]), t)
                    self.event('delitem', st, 'del', ot, [k], g=g, node=t)
                    st.put((ot, '$d'), Ops(self.ops(ot, st) + (('del', B.AND(st.pc, g), k),)))
            elif isinstance(t, ast.Name):
                st.drop((fr.term, t.id))
            elif isinstance(t, ast.Attribute):
                for g, ot in leaves(self.ev(t.value, st, fr), st.pc):
                    self.event('delattr', st, t.attr, ot, [], g=g, node=t)
                    st.put((ot, t.attr), one(mk('undef', t.attr)))

    def ex_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)

    def ex_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr), st, fr)

    def ex_AugAssign(self, n, st, fr):
        cur = self.ev(ast.copy_location(_load(n.target), n.target), st, fr)
        v = self.ev(n.value, st, fr)
        if isinstance(n.op, ast.Add):
            done = False
            for g, t in leaves(cur, st.pc):
                if self.is_seq(t) and t.args[1] == 'list':
                    self.meth_list(t, 'extend', [v], {}, st, n)
                    done = True
            if done:
                return
        self.assign(n.target, self.binop(n.op, cur, v, st, n), st, fr)

    def assign(self, t, v, st, fr):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            ls = leaves(o, st.pc)
            for g, ot in ls:
                if len(ls) == 1:
                    self.setattr(ot, t.attr, v, st, t)
                else:
                    a = st.fork()
                    a.pc = B.AND(st.pc, g)
                    b = st.fork()
                    b.pc = B.AND(st.pc, B.NOT(g))
                    self.setattr(ot, t.attr, v, a, t)
                    st.become(self.merge([a, b]))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr) if not isinstance(t.slice, ast.Slice) else one(mk('sliceobj', t.lineno))
            ls = leaves(o, st.pc)
            for g, ot in ls:
                if len(ls) == 1:
                    if isinstance(t.slice, ast.Slice):
                        bd = [None if x is None else getattr(x, 'value', '?') for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                        self.event('setslice', st, '[:]', ot, [v], node=t, extra=tuple(bd))
                        if t.slice.lower is None and t.slice.upper is None:
                            st.put((ot, '$l'), Segs(self.splice(v, st)))
                        else:
                            st.put((ot, '$l'), Segs([('unk', TRUE)]))
                        continue
                    self.sub_store(ot, k, v, st, t)
                else:
                    a = st.fork()
                    a.pc = B.AND(st.pc, g)
                    b = st.fork()
                    b.pc = B.AND(st.pc, B.NOT(g))
                    self.sub_store(ot, k, v, a, t)
                    st.become(self.merge([a, b]))
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        parts = [[] for _ in range(n)]
        for g, x in leaves(v, st.pc):
            es = self.known_elems(x, st) if (self.is_seq(x) or (x, '$l') in st.heap or (x, '$l') in self.static) else None
            if es is not None and not star and len(es) == n:
                for i in range(n):
                    parts[i].append((g, es[i]))
            elif es is not None and star and len(es) >= n - 1:
                s = star[0]
                m = len(es) - (n - 1)
                for i in range(n):
                    if i < s:
                        parts[i].append((g, es[i]))
                    elif i == s:
                        parts[i].append((g, one(self.mklist(st, [('e', TRUE, q) for q in es[s:s + m]]))))
                    else:
                        parts[i].append((g, es[i + m - 1]))
            elif es is not None and not star:
                self.raise_builtin(st, 'ValueError', g, t)
            else:
                if not star and x.op != 'tup':
                    self.event('unpack', st, str(n), x, [one(x)], g=g, node=t)
                for i in range(n):
                    if isinstance(t.elts[i], ast.Starred):
                        parts[i].append((g, one(mk('app', 'rest', x, const(i)))))
                        continue
                    s2 = st
                    parts[i].append((g, self.sub_load(x, const(i), s2, t) if not is_str(x) else
                                     one(mk('item', x, const(i)))))
        for i, x in enumerate(t.elts):
            vv = vnorm([(B.AND(g, g2), t2) for g, w in parts[i] for g2, t2 in w.ls])
            if len(parts[i]) == 1:
                vv = parts[i][0][1]
            if not vv.ls:
                vv = one(mk('undef', 'unpack'))
            self.assign(x, vv, st, fr)

    def bind(self, name, v, st, fr):
        if name in fr.locals or fr.func is None:
            st.put((fr.term, name), v)
            return
        if getattr(fr, 'comp_parent', None) is not None:
            return self.bind(name, v, st, fr.comp_parent)
        env = fr.env
        while env is not None:
            fterm, ffunc, up = env
            if name in ffunc.locals:
                st.put((fterm, name), v)
                return
            env = up
        c = mk('cell', fr.module, name)
        self.event('set', st, name, mk('mod', fr.module), [v], node=None)
        st.put((c, 'val'), v)

    def ex_If(self, n, st, fr):
        g = self.cond(n.test, st, fr)
        if st.dead:
            return
        a = st.fork()
        a.pc = B.AND(st.pc, g)
        b = st.fork()
        b.pc = B.AND(st.pc, B.NOT(g))
        if not a.dead:
            self.block(n.body, a, fr)
        if not b.dead:
            self.block(n.orelse, b, fr)
        st.become(self.merge([a, b]))

    def cond(self, e, st, fr):
        v = self.ev(e, st, fr)
        return self.truth(v, st)

    def ex_Break(self, n, st, fr):
        if fr.loop is not None and not st.dead:
            fr.loop.brks.append(st.fork())
        st.pc = FALSE

    def ex_Continue(self, n, st, fr):
        if fr.loop is not None and not st.dead:
            fr.loop.cnts.append(st.fork())
        st.pc = FALSE

    def flag_loop(self, n, st, fr):
        """while over a local flag that the body sets: `while not done:`"""
        names = set()

        def ok(e):
            if isinstance(e, ast.Name):
                names.add(e.id)
                return True
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return ok(e.operand)
            if isinstance(e, ast.BoolOp):
                return all(ok(x) for x in e.values)
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                return ok(e.left) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (None, True, False)
            return False
        if n.orelse or not ok(n.test) or not names:
            return False
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if not names & stored:
            return False
        for nm in names:
            k = (fr.term, nm)
            v = st.heap.get(k)
            if not isinstance(v, V) or not all(is_const(t) and (cval(t) is None or isinstance(cval(t), bool)) for _, t in v.ls):
                return False
        return True

    def ex_While(self, n, st, fr):
        outer = fr.loop
        ctx = LoopCtx()
        if self.flag_loop(n, st, fr):
            # `while c: body` is `if c: loop: body; if not c: break`
            g0 = self.cond(n.test, st, fr)
            skip = st.fork()
            skip.pc = B.AND(st.pc, B.NOT(g0))
            st.pc = B.AND(st.pc, g0)
            if not st.dead:
                def rhead(s, L):
                    fr.loop = ctx
                    g = self.cond(n.test, s, fr)
                    L.more = g
                    s.pc = B.AND(s.pc, g)
                    if s.dead:
                        return
                    self.block(n.body, s, fr)
                    s.become(self.merge([s] + ctx.cnts))
                    ctx.cnts = []
                    if s.dead:
                        return
                    h = self.cond(n.test, s, fr)
                    out = s.fork()
                    out.pc = B.AND(s.pc, B.NOT(h))
                    ctx.brks.append(out)
                    s.pc = B.AND(s.pc, h)

                def rexit(s, L):
                    s.pc = FALSE
                self.generic(st, fr, n, 'while', mk('while', fr.func.qual if fr.func else '', n.lineno), None, rhead, rexit, ctx)
                fr.loop = outer
                st.pc = FALSE
            st.become(self.merge([skip] + ctx.brks))
            return

        def head(s, L):
            fr.loop = ctx
            g = self.cond(n.test, s, fr)
            L.more = g
            s.pc = B.AND(s.pc, g)
            if not s.dead:
                self.block(n.body, s, fr)

        def exitc(s, L):
            g = self.cond(n.test, s, fr)
            s.pc = B.AND(s.pc, B.NOT(g))
        self.generic(st, fr, n, 'while', mk('while', fr.func.qual if fr.func else '', n.lineno), None, head, exitc, ctx)
        fr.loop = outer
        if n.orelse and not st.dead:
            self.block(n.orelse, st, fr)
        st.become(self.merge([st] + ctx.brks))

    def ex_For(self, n, st, fr):
        it = self.ev(n.iter, st, fr)
        if st.dead:
            return
        outs = []
        ls = leaves(it, st.pc)
        base = st
        for g, t in ls:
            s = base.fork()
            s.pc = B.AND(base.pc, g)
            if s.dead:
                continue
            outer = fr.loop
            ctx = LoopCtx()
            if t.op == 'gen':
                def yielded(s2, v, ctx=ctx):
                    keep = fr.loop
                    fr.loop = LoopCtx()
                    inner = fr.loop
                    self.assign(n.target, v, s2, fr)
                    self.block(n.body, s2, fr)
                    s2.become(self.merge([s2] + inner.cnts))
                    ctx.brks.extend(inner.brks)
                    fr.loop = keep
                self.run_gen(t, s, fr, yielded, n, sink=ctx)
            else:
                def body(s2, v, L):
                    fr.loop = ctx
                    self.assign(n.target, v, s2, fr)
                    self.block(n.body, s2, fr)
                self.run_desc(self.iterate(t, s, n), s, fr, n, body, ctx)
            fr.loop = outer
            if n.orelse and not s.dead:
                self.block(n.orelse, s, fr)
            outs.append(self.merge([s] + ctx.brks))
        st.become(self.merge(outs))

    def ex_Try(self, n, st, fr):
        if n.finalbody:
            self.with_final(st, fr, lambda s: self.try_inner(n, s, fr), lambda s: self.block(n.finalbody, s, fr))
        else:
            self.try_inner(n, st, fr)

    ex_TryStar = ex_Try

    def with_final(self, st, fr, body, final):
        cols = self.collectors(fr)
        keep = [(o, a, getattr(o, a)) for o, a in cols]
        for o, a in cols:
            setattr(o, a, [])
        ke, self.excs = self.excs, []
        body(st)
        got = [(o, a, getattr(o, a)) for o, a in cols]
        ex = self.excs
        self.excs = ke
        for o, a, v in keep:
            setattr(o, a, v)
        if not st.dead:
            final(st)
        for o, a, lst in got:
            if not lst:
                continue
            if a in ('rets', 'excs'):
                s, v = self.merge_v(lst)
                if not s.dead:
                    s = s.fork()
                    final(s)
                    if not s.dead:
                        getattr(o, a).append((s, v))
            else:
                s = self.merge(lst)
                if not s.dead:
                    s = s.fork()
                    final(s)
                    if not s.dead:
                        getattr(o, a).append(s)
        if ex:
            s, v = self.merge_v(ex)
            if not s.dead:
                s = s.fork()
                final(s)
                if not s.dead:
                    self.excs.append((s, v))

    def try_inner(self, n, st, fr):
        ke, self.excs = self.excs, []
        it = any(isinstance(x, ast.Name) and x.id in ('IndexError', 'LookupError') for h in n.handlers if h.type is not None for x in ast.walk(h.type)) or \
            len(n.body) == 1 and isinstance(n.body[0], (ast.Assign, ast.Expr, ast.Return)) and \
            all(isinstance(x.func, ast.Name) and x.func.id in ('int', 'float', 'str') for x in ast.walk(n.body[0]) if isinstance(x, ast.Call)) and \
            any(h.type is None or any(isinstance(x, ast.Name) and x.id in ('Exception', 'BaseException') for x in ast.walk(h.type)) for h in n.handlers)
        self.itry += it
        self.block(n.body, st, fr)
        self.itry -= it
        mine, self.excs = self.excs, ke
        if n.orelse and not st.dead:
            self.block(n.orelse, st, fr)
        mine = [x for x in mine if not x[0].dead]
        if not mine:
            return
        s, v = self.merge_v(mine)
        s = s.fork()
        outs = [st]
        for h in n.handlers:
            if s.dead:
                break
            g = self.exc_match(h.type, v, s, fr)
            a = s.fork()
            a.pc = B.AND(s.pc, g)
            if not a.dead:
                if h.name:
                    self.bind(h.name, v, a, fr)
                self.handling.append(v)
                self.event('handler', a, 'except', args=[v], node=h, extra=h)
                self.block(h.body, a, fr)
                self.handling.pop()
                outs.append(a)
            s.pc = B.AND(s.pc, B.NOT(g))
        if not s.dead:
            self.excs.append((s, v))
        st.become(self.merge(outs))

    def exc_match(self, typ, v, st, fr):
        if typ is None:
            return TRUE
        cv = self.ev(typ, st, fr)
        r = FALSE
        for g, (x, c) in cross([v, cv], st.pc):
            r = B.OR(r, B.AND(g, self.isinst_t(x, c, st)))
        return r

    def isinst_t(self, x, c, st):
        if c.op == 'cls':
            return isinst(x, c.args[0])
        if c.op == 'ext':
            return isinst(x, dkey(c.args[0]))
        if self.is_seq(c) or (c, '$l') in st.heap or (c, '$l') in self.static:
            r = FALSE
            for s in self.segs(c, st):
                if s[0] == 'e':
                    for g, t in s[2].ls:
                        r = B.OR(r, B.all([s[1], g, self.isinst_t(x, t, st)]))
            return r
        if c.op == 'classof':
            return atom('isinst', x, c)
        return atom('isinst', x, c)

    def ex_With(self, n, st, fr):
        self.with_items(list(n.items), n, st, fr)

    def with_items(self, items, n, st, fr):
        if not items:
            self.block(n.body, st, fr)
            return
        it = items[0]
        cv = self.ev(it.context_expr, st, fr)
        if st.dead:
            return
        ls = leaves(cv, st.pc)
        outs = []
        for g, c in ls:
            s = st.fork() if len(ls) > 1 else st
            s.pc = B.AND(st.pc, g)
            if s.dead:
                continue
            self.with_one(c, it, items, n, s, fr)
            outs.append(s)
        if len(ls) > 1:
            st.become(self.merge(outs))

    def with_one(self, c, it, items, n, st, fr):
        if c.op == 'gen':
            def yielded(s, v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, s, fr)
                self.with_items(items[1:], n, s, fr)
            self.run_gen(c, st, fr, yielded, n, throw=True)
            return
        cs = self.classes_of(c)
        ent = cs[0].find('__enter__') if len(cs) == 1 else None
        if ent is not None:
            v = self.invoke(ent, [one(c)], {}, st, n)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
            ext = cs[0].find('__exit__')

            def final(s):
                if ext is not None:
                    self.invoke(ext, [one(c), one(NONE), one(NONE), one(NONE)], {}, s, n)
            self.with_final(st, fr, lambda s: self.with_items(items[1:], n, s, fr), final)
            return
        if c.op == 'obj' and c.args[1] == 'x:contextlib.suppress':
            ke, self.excs = self.excs, []
            self.with_items(items[1:], n, st, fr)
            mine, self.excs = self.excs, ke
            mine = [x for x in mine if not x[0].dead]
            if mine:
                s, v = self.merge_v(mine)
                s = s.fork()
                cls = st.heap.get((c, '$args')) or s.heap.get((c, '$args'))
                g = FALSE
                if cls is not None:
                    for gg, (x, tt) in cross([v, cls], s.pc):
                        g = B.OR(g, B.AND(gg, self.isinst_t(x, tt, s)))
                a = s.fork()
                a.pc = B.AND(s.pc, g)
                s.pc = B.AND(s.pc, B.NOT(g))
                if not s.dead:
                    self.excs.append((s, v))
                st.become(self.merge([st, a]))
            return
        self.event('enter', st, 'enter', c, node=n)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, one(c), st, fr)
        self.with_final(st, fr, lambda s: self.with_items(items[1:], n, s, fr),
                        lambda s: self.event('exit', s, 'exit', c, node=n))

    # ------------------------------------------------------------------ generators
    def run_gen(self, gen, st, fr, yielded, node, throw=False, sink=None):
        payload = self.gens[gen.args[0]]
        f, binds, env, selft = payload
        gf = self.enter(f, env, st, selft)
        for k, v in binds.items():
            st.put((gf.term, k), v)
        sink = sink or LoopCtx()
        gf.sink = sink

        def on_yield(s, v):
            self.calls.pop()
            inner = self.excs
            if not throw:
                self.excs = sink.excs
            yielded(s, v)
            self.excs = inner
            self.calls.append(gf)
        gf.on_yield = on_yield
        gf.consumer = fr
        if len(self.calls) > 30:
            self.calls.pop()
            return
        self.block(f.node.body, st, gf)
        self.calls.pop()
        self.excs.extend(x for x in sink.excs if not x[0].dead)
        sink.excs = []
        st.become(self.merge([st] + [s for s, _ in gf.rets]))

    gens = {}

    def ev_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else one(NONE)
        if fr.on_yield is not None and not st.dead:
            fr.on_yield(st, v)
        return one(NONE)

    def ev_YieldFrom(self, n, st, fr):
        it = self.ev(n.value, st, fr)
        for g, t in leaves(it, st.pc):
            if t.op == 'gen':
                self.run_gen(t, st, fr, lambda s, v: fr.on_yield(s, v) if fr.on_yield else None, n)
            else:
                ctx = LoopCtx()
                self.run_desc(self.iterate(t, st, n), st, fr, n,
                              lambda s, v, L: fr.on_yield(s, v) if fr.on_yield else None, ctx)
        return one(NONE)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            self.stats['unsupported'].append((fr.module.path, getattr(e, 'lineno', 0), type(e).__name__))
            self.n += 1
            return one(mk('opaque', type(e).__name__, self.n))
        if st.dead:
            return one(mk('undef', 'dead'))
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr):
        return one(const(e.value))

    def ev_Name(self, e, st, fr):
        if getattr(fr, 'cls_scope', None) is not None:
            v = self.class_attr(fr.cls_scope, e.id, st)
            if v is not None:
                return v
        return self.lookup(e.id, st, fr)

    def ev_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def ev_Attribute(self, e, st, fr):
        return self.map1(self.ev(e.value, st, fr), st, lambda t, s: self.getattr(t, e.attr, s, e, fr))

    def map1(self, v, st, f):
        """apply f(term, state)->V to every leaf, joining the states"""
        ls = leaves(v, st.pc)
        if len(ls) == 1:
            return f(ls[0][1], st)
        outs = []
        for g, t in ls:
            s = st.fork()
            s.pc = B.AND(st.pc, g)
            if s.dead:
                continue
            r = f(t, s)
            outs.append((s, r))
        if not outs:
            return one(mk('undef', 'nothing'))
        s, r = self.merge_v(outs)
        st.become(s)
        return r

    def ev_Tuple(self, e, st, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += self.splice(self.ev(x.value, st, fr), st)
            else:
                segs.append(('e', TRUE, self.ev(x, st, fr)))
        return one(self.mklist(st, segs, {'Tuple': 'tuple', 'List': 'list', 'Set': 'set'}[type(e).__name__]))

    ev_List = ev_Set = ev_Tuple

    def splice(self, v, st):
        """segments of an iterable value"""
        out = []
        for g, t in leaves(v, st.pc):
            if t.op == 'gen':
                acc = self.mklist(st, [])

                def y(s, vv):
                    s.put((acc, '$l'), Segs(self.segs(acc, s) + (('e', s.pc if s.pc != st.pc else TRUE, vv),)))
                fr = self.calls[-1]
                self.run_gen(t, st, fr, y, None)
                out += [(s[0], B.AND(s[1], g)) + s[2:] for s in self.segs(acc, st)]
                continue
            if t.op in ('keys', 'values', 'items', 'enumerate', 'zip', 'range') or self.is_map(t) or \
                    (t.op == 'app' and t.args[0] in ('sorted', 'reversed')):
                for d in self.iterate(t, st, None):
                    if d[0] == 'e':
                        out.append(('e', B.AND(g, d[1]), d[2]))
                    else:
                        L, gg, vv = self.pseudo_loop(d, st)
                        out.append(('each', B.AND(g, d[1]), L, (('e', gg, vv),)))
                continue
            if self.is_seq(t) or (t, '$l') in st.heap or (t, '$l') in self.static:
                out += [(s[0], B.AND(s[1], g)) + tuple(s[2:]) for s in self.segs(t, st)]
                continue
            if is_strc(t):
                out += [('e', g, one(const(c))) for c in cval(t)]
                continue
            if self.isdict(t):
                for d in self.iterate(t, st, None):
                    L, gg, vv = self.pseudo_loop(d, st)
                    out.append(('each', B.AND(g, d[1]), L, (('e', gg, vv),)))
                continue
            out.append(('base', g, self.base(t, st)))
        return out

    def pseudo_loop(self, d, st):
        """a loop record standing for an implicit iteration (list(x), extend(x), ...)"""
        self.n += 1
        L = Loop(self.n, 'implicit', d[2], d[4], None, None)
        L.occ = d[5].occ if d[5] is not None else self.occ.get(d[2], 0)
        if d[5] is None:
            self.occ[d[2]] = L.occ + 1
        L.src = d[5]
        L.more = atom('more', L.id)
        self.cur = st
        g, v = d[3](L)
        return L, g, v

    def ev_Dict(self, e, st, fr):
        t = self.new('dict')
        st.put((t, '$d'), Ops())
        for k, x in zip(e.keys, e.values):
            if k is None:
                self.dict_update(t, self.ev(x, st, fr), st)
            else:
                kv = self.ev(k, st, fr)
                xv = self.ev(x, st, fr)
                st.put((t, '$d'), Ops(self.ops(t, st) + (('set', TRUE, kv, xv),)))
        return one(t)

    def dict_update(self, d, v, st):
        for g, t in leaves(v, st.pc):
            if self.is_map(t):
                new = [(o[0], B.AND(o[1], g)) + tuple(o[2:]) for o in self.ops(t, st)]
            elif self.is_seq(t):
                new = []
                for s in self.segs(t, st):
                    if s[0] == 'e':
                        for g2, pt in s[2].ls:
                            es = self.known_elems(pt, st)
                            if es and len(es) == 2:
                                new.append(('set', B.all([g, s[1], g2]), es[0], es[1]))
                    elif s[0] == 'each':
                        subs = []
                        for sub in s[3]:
                            if sub[0] == 'e':
                                for g2, pt in sub[2].ls:
                                    es = self.known_elems(pt, st)
                                    if es and len(es) == 2:
                                        subs.append(('set', B.AND(sub[1], g2), es[0], es[1]))
                                    else:
                                        subs.append(('set', B.AND(sub[1], g2), one(mk('item', pt, const(0))),
                                                     one(mk('item', pt, const(1)))))
                        new.append(('each', B.AND(g, s[1]), s[2], tuple(subs)))
                    elif s[0] == 'base':
                        new.append(('upd', B.AND(g, s[1]), mk('app', 'dict', s[2])))
            else:
                new = [('upd', g, self.base(t, st))]
                new += [(o[0], B.AND(o[1], g)) + tuple(o[2:]) for o in self.ops(t, st)]
            st.put((d, '$d'), Ops(self.ops(d, st) + tuple(new)))

    def ev_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        cur = self.ev(e.values[0], st, fr)
        done = []
        for x in e.values[1:]:
            if st.dead:
                break
            g = self.truth(cur, st)
            stop = B.NOT(g) if is_and else g
            a = st.fork()
            a.pc = B.AND(st.pc, stop)
            if not a.dead:
                done.append((a, cur))
            st.pc = B.AND(st.pc, B.NOT(stop))
            if st.dead:
                break
            cur = self.ev(x, st, fr)
        if not st.dead:
            done.append((st.fork(), cur))
        s, v = self.merge_v(done)
        st.become(s)
        return v

    def ev_UnaryOp(self, e, st, fr):
        v = self.ev(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return self.vbool(B.NOT(self.truth(v, st)))
        if isinstance(e.op, ast.USub):
            return vnorm([(g, scale(t, Fraction(-1))) for g, t in leaves(v, st.pc)])
        if isinstance(e.op, ast.UAdd):
            return v
        return vnorm([(g, mk('app', 'invert', t)) for g, t in leaves(v, st.pc)])

    def ev_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e)

    def binop(self, op, a, b, st, node):
        out = []
        for g, (x, y) in cross([a, b], st.pc):
            out.append((g, self.bin_t(op, x, y, st, node)))
        return vnorm(out) if out else one(mk('undef', 'binop'))

    def bin_t(self, op, x, y, st, node):
        if isinstance(op, ast.Add):
            if (self.is_seq(x) or (x, '$l') in self.static) and (self.is_seq(y) or (y, '$l') in self.static):
                k = x.args[1] if x.op == 'obj' else 'list'
                return self.mklist(st, list(self.segs(x, st)) + list(self.segs(y, st)), k)
            if self.is_seq(x) or self.is_seq(y):
                k = (x if self.is_seq(x) else y).args[1]
                return self.mklist(st, self.splice(one(x), st) + self.splice(one(y), st), k)
            if is_str(x) or is_str(y):
                return cat([x, y])
            if is_num(x) or is_num(y):
                return add(x, y)
            ty = self.typeof(x) or set()
            ty2 = self.typeof(y) or set()
            if any(v[0] == 'p' and v[1] in ('int', 'float') for v in ty | ty2):
                return add(x, y)
            return mk('plus', x, y)
        if isinstance(op, ast.Sub):
            return add(x, y, -1)
        if isinstance(op, ast.Mult):
            for a, b in ((x, y), (y, x)):
                if (self.is_seq(a) or (a, '$l') in self.static) and is_numc(b) and isinstance(cval(b), int) and cval(b) <= 64:
                    k = a.args[1] if a.op == 'obj' else 'list'
                    return self.mklist(st, list(self.segs(a, st)) * max(cval(b), 0), k)
                if is_strc(a) and is_numc(b) and isinstance(cval(b), int) and cval(b) * len(cval(a)) <= 10000:
                    return const(cval(a) * cval(b))
            if is_numc(x):
                return scale(y, Fraction(cval(x)).limit_denominator(10 ** 9))
            if is_numc(y):
                return scale(x, Fraction(cval(y)).limit_denominator(10 ** 9))
            a, b = sorted((x, y), key=lambda q: q.id)
            return mk('app', 'mul', a, b)
        if isinstance(op, ast.Div):
            if is_numc(y) and cval(y) != 0:
                return scale(x, 1 / Fraction(cval(y)).limit_denominator(10 ** 9))
            return mk('app', 'div', x, y)
        if isinstance(op, ast.Mod):
            if is_strc(x):
                return self.percent(x, y, st)
            return mk('app', 'mod', x, y)
        if isinstance(op, ast.BitOr):
            if self.is_map(x) or self.is_map(y):
                t = self.new('dict')
                st.put((t, '$d'), Ops())
                self.dict_update(t, one(x), st)
                self.dict_update(t, one(y), st)
                return t
            a, b = sorted((x, y), key=lambda q: q.id)
            return mk('app', 'or', a, b)
        if is_numc(x) and is_numc(y):
            try:
                f = {ast.FloorDiv: lambda a, b: a // b, ast.Pow: lambda a, b: a ** b}.get(type(op))
                if f:
                    return const(f(cval(x), cval(y)))
            except Exception:
                pass
        return mk('app', {ast.FloorDiv: 'floordiv', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.Pow: 'pow',
                          ast.LShift: 'lshift', ast.RShift: 'rshift'}.get(type(op), 'op'), x, y)

    def percent(self, x, y, st):
        import re
        fmt = cval(x)
        if self.is_seq(y):
            es = self.known_elems(y, st)
            args = [v.ls[0][1] for v in es] if es is not None and all(len(v.ls) == 1 for v in es) else None
        else:
            args = [y]
        parts = re.split(r'(%[0-9.]*[sdfr%])', fmt)
        out, i = [], 0
        if args is None:
            return mk('app', 'percent', x, y)
        for p in parts:
            if p == '%%':
                out.append(const('%'))
            elif p.startswith('%') and len(p) > 1:
                if i >= len(args):
                    return mk('app', 'percent', x, y)
                out.append(args[i] if p in ('%s', '%d') else mk('fmt', args[i], p[1:]))
                i += 1
            else:
                out.append(const(p))
        return cat(out)

    def ev_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        acc = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            if st.dead:
                return one(FALSE_T)
            v = self.compare(op, left, right, st, e)
            acc = B.AND(acc, self.truth(v, st))
            left = right
        return self.vbool(acc)

    def ev_IfExp(self, e, st, fr):
        g = self.cond(e.test, st, fr)
        outs = []
        for gg, x in ((g, e.body), (B.NOT(g), e.orelse)):
            s = st.fork()
            s.pc = B.AND(st.pc, gg)
            if not s.dead:
                v = self.ev(x, s, fr)
                outs.append((s, v))
        s, v = self.merge_v(outs)
        st.become(s)
        return v

    def ev_JoinedStr(self, e, st, fr):
        vs = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                vs.append(one(const(p.value)))
            else:
                v = self.ev(p.value, st, fr)
                if p.format_spec is not None:
                    sp = self.ev(p.format_spec, st, fr)
                    v = vnorm([(g, mk('fmt', t, s)) for g, (t, s) in cross([v, sp], st.pc)])
                elif p.conversion == 114:
                    v = vnorm([(g, mk('fmt', t, '!r')) for g, t in leaves(v, st.pc)])
                vs.append(v)
        return vnorm([(g, cat(ts)) for g, ts in cross(vs, st.pc)])

    def ev_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Lambda(self, e, st, fr):
        f = self.prog.by_node.get(e)
        if f is None:
            from .model import Func as F
            f = F('<lambda>', fr.module.name + '.<lambda>', e, fr.module, None, None)
            self.prog.by_node[e] = f
        t = mk('clos', f, (fr.term, fr.func, fr.env) if fr.func is not None else None)
        self.defaults(f, t, st, fr)
        return one(t)

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Slice(self, e, st, fr):
        return one(mk('sliceobj', e.lineno))

    def ev_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        if isinstance(e.slice, ast.Slice):
            def part(x):
                if x is None:
                    return one(NONE)
                return self.ev(x, st, fr)
            lo, hi, sp = part(e.slice.lower), part(e.slice.upper), part(e.slice.step)
            return self.map1(o, st, lambda t, s: self.slice_t(t, lo, hi, sp, s))
        k = self.ev(e.slice, st, fr)
        if st.dead:
            return one(mk('undef', 'dead'))

        def load(t, s):
            return self.map1(k, s, lambda kt, s2: self.sub_load(t, kt, s2, e))
        return self.map1(o, st, load)

    def slice_t(self, t, lo, hi, sp, st):
        def c(v):
            if len(v.ls) == 1 and is_const(v.ls[0][1]):
                return True, cval(v.ls[0][1])
            return False, (v.ls[0][1] if len(v.ls) == 1 else mk('phi', 's', hash(v)))
        (a, lo), (b, hi), (d, sp) = c(lo), c(hi), c(sp)
        if a and b and d:
            if is_strc(t):
                return one(const(cval(t)[lo:hi:sp]))
            if self.is_seq(t) or (t, '$l') in st.heap:
                es = self.known_elems(t, st)
                if es is not None:
                    return one(self.mklist(st, [('e', TRUE, v) for v in es[lo:hi:sp]], t.args[1] if t.op == 'obj' else 'list'))
                ss = self.segs(t, st)
                if lo in (None, 0) and sp is None and hi is None:
                    return one(self.mklist(st, ss, 'list'))
                if sp is None and hi is None and isinstance(lo, int) and lo > 0 and len(ss) >= lo and \
                        all(s[0] == 'e' and core.implies(st.pc, s[1]) for s in ss[:lo]):
                    return one(self.mklist(st, ss[lo:], 'list'))
                if len(ss) == 1 and ss[0][0] == 'base':
                    t = ss[0][2]
            if lo in (None, 0) and hi is None and sp is None:
                return one(mk('app', 'copy', self.base(t, st)))
            if t.op == 'cat' and sp is None and (lo or 0) >= 0 if isinstance(lo, int) or lo is None else False:
                # constant ends cut off a text
                ps = list(t.args[0])
                if isinstance(hi, int) and hi < 0 and lo in (None, 0) and is_strc(ps[-1]) and len(cval(ps[-1])) >= -hi:
                    return one(cat(ps[:-1] + [const(cval(ps[-1])[:hi])]))
                if hi is None and isinstance(lo, int) and is_strc(ps[0]) and len(cval(ps[0])) >= lo:
                    return one(cat([const(cval(ps[0])[lo:])] + ps[1:]))
            return one(mk('slice', t, lo, hi, sp))
        return one(mk('slice', t, lo, hi, sp))

    # comprehensions
    def comp_frame(self, e, st, fr):
        names = set()
        for g in e.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        self.n += 1
        f = Frame(fr.func, mk('frame', self.n), fr.env, fr.module, fr.cls, fr.selft)
        f.locals = names
        f.comp_parent = fr
        f.on_yield = fr.on_yield
        f.rets = fr.rets
        if getattr(fr, 'cls_scope', None) is not None:
            f.cls_scope = None
        return f

    def comp_run(self, e, st, fr, elt):
        """run the generators; elt(st, cf) is evaluated innermost"""
        cf = self.comp_frame(e, st, fr)

        def gen(i, s):
            if i == len(e.generators):
                elt(s, cf)
                return
            g = e.generators[i]
            it = self.ev(g.iter, s, cf if i else fr)
            outs = []
            for gg, t in leaves(it, s.pc):
                s2 = s.fork()
                s2.pc = B.AND(s.pc, gg)
                if s2.dead:
                    continue
                ctx = LoopCtx()

                def body(s3, v, L):
                    self.assign(g.target, v, s3, cf)
                    skip = []
                    for c in g.ifs:
                        if s3.dead:
                            break
                        q = self.cond(c, s3, cf)
                        x = s3.fork()
                        x.pc = B.AND(s3.pc, B.NOT(q))
                        skip.append(x)
                        s3.pc = B.AND(s3.pc, q)
                    if not s3.dead:
                        gen(i + 1, s3)
                    s3.become(self.merge([s3] + skip))
                if t.op == 'gen':
                    self.run_gen(t, s2, fr, lambda s3, v: body(s3, v, None), e)
                else:
                    self.run_desc(self.iterate(t, s2, e), s2, cf, e, body, ctx)
                outs.append(s2)
            s.become(self.merge(outs))
        gen(0, st)

    def ev_ListComp(self, e, st, fr):
        acc = self.mklist(st, [], 'set' if isinstance(e, ast.SetComp) else 'list')
        pc0 = st.pc

        def elt(s, cf):
            v = self.ev(e.elt, s, cf)
            if not s.dead:
                s.put((acc, '$l'), Segs(self.segs(acc, s) + (('e', s.pc if s.pc != pc0 else TRUE, v),)))
        self.comp_run(e, st, fr, elt)
        return one(acc)

    ev_SetComp = ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, st, fr):
        acc = self.new('dict')
        st.put((acc, '$d'), Ops())
        pc0 = st.pc

        def elt(s, cf):
            k = self.ev(e.key, s, cf)
            v = self.ev(e.value, s, cf)
            if not s.dead:
                s.put((acc, '$d'), Ops(self.ops(acc, s) + (('set', s.pc if s.pc != pc0 else TRUE, k, v),)))
        self.comp_run(e, st, fr, elt)
        return one(acc)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            f = fr
            while getattr(f, 'comp_parent', None) is not None:
                f = f.comp_parent
            return one(mk('super', f.cls, f.selft))
        fv = self.ev(e.func, st, fr)
        pos, kws = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                pos.append(('*', self.ev(a.value, st, fr)))
            else:
                pos.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                kws.setdefault('**', []).append(v)
            else:
                kws[k.arg] = v
        if st.dead:
            return one(mk('undef', 'dead'))
        return self.call(fv, pos, kws, st, fr, e)

    def call(self, fv, pos, kws, st, fr, node):
        pos = self.expand_star(pos, st)
        kws = self.expand_kw(kws, st)
        return self.map1(fv, st, lambda t, s: self.call_t(t, pos, kws, s, fr, node))

    def expand_star(self, pos, st):
        out = []
        for p in pos:
            if isinstance(p, tuple):
                v = p[1]
                ls = leaves(v, st.pc)
                es = self.known_elems(ls[0][1], st) if len(ls) == 1 and (
                    self.is_seq(ls[0][1]) or (ls[0][1], '$l') in self.static) else None
                if es is not None:
                    out.extend(es)
                else:
                    out.append(p)
            else:
                out.append(p)
        return out

    def expand_kw(self, kws, st):
        if '**' not in kws:
            return kws
        out = {k: v for k, v in kws.items() if k != '**'}
        rest = []
        for v in kws['**']:
            ls = leaves(v, st.pc)
            if len(ls) == 1 and self.is_map(ls[0][1]):
                ops = self.ops(ls[0][1], st)
                if all(o[0] == 'set' and len(o[2].ls) == 1 and is_strc(o[2].ls[0][1]) and
                       core.implies(st.pc, o[1]) for o in ops):
                    for o in ops:
                        out[cval(o[2].ls[0][1])] = o[3]
                    continue
            rest.append(v)
        if rest:
            out['**'] = rest
        return out

    def call_t(self, t, pos, kws, st, fr, node):
        op = t.op
        if op == 'fn':
            return self.invoke(t.args[0], pos, kws, st, node)
        if op == 'bm':
            return self.invoke(t.args[0], [one(t.args[1])] + pos, kws, st, node)
        if op == 'clos':
            return self.invoke(t.args[0], pos, kws, st, node, env=t.args[1], clos=t)
        if op == 'cls':
            return self.construct(t.args[0], pos, kws, st, node)
        if op == 'ntcls':
            return self.make_nt(t, pos, kws, st, node)
        if op == 'partial':
            p = self.partials[t.args[0]]
            k2 = dict(p[2])
            k2.update(kws)
            return self.call(p[0], list(p[1]) + pos, k2, st, fr, node)
        if op == 'ext':
            return self.call_ext(t.args[0], pos, kws, st, fr, node)
        if op == 'xm':
            return self.call_method(t.args[0], t.args[1], pos, kws, st, fr, node)
        if op == 'attr' and not self.classes_of(t.args[0]):
            return self.call_method(t.args[0], t.args[1], pos, kws, st, fr, node)
        if op == 'attr' and self.classes_of(t.args[0]) and self._method_like(t):
            return self.call_method(t.args[0], t.args[1], pos, kws, st, fr, node)
        if op == 'undef':
            self.event('undef', st, 'call', t, node=node)
            return one(mk('undef', 'call'))
        cs = self.classes_of(t)
        if len(cs) == 1 and cs[0].find('__call__'):
            return self.invoke(cs[0].find('__call__'), [one(t)] + pos, kws, st, node)
        ty = self.typeof(t)
        if ty and all(v[0] in ('dc', 'c') and v[1].find('__init__') is None for v in ty):
            # a class created at run time with no constructor of its own
            bases = sorted({v[1] for v in ty}, key=lambda c: c.qual)
            self.n += 1
            r = mk('inst', self.n, t)
            self._tymemo[r] = {('i', c) for c in bases}
            args, kw = self.flat(pos, kws)
            self.event('new', st, bases[0].qual, r, args, kw, res=r, node=node, extra=bases[0])
            return one(r)
        return self.callback(t, pos, kws, st, node)

    def _method_like(self, t):
        """attribute of a repo instance that is neither a field nor defined: inherited from an external base"""
        return False

    def callback(self, t, pos, kws, st, node):
        """a call of an unknown callable value: user code, may do anything to the visible state"""
        self.n += 1
        k = self.n
        r = mk('res', k, 'callback')
        args, kw = self.flat(pos, kws)
        self.event('callback', st, 'callback', t, args, kw, res=r, raises=atom('raises', k), node=node)
        self.havoc(st)
        self.raise_maybe(st, k, show(t), None, node)
        return one(r)

    def flat(self, pos, kws):
        args = [p if not isinstance(p, tuple) else V([(g, mk('star', t)) for g, t in p[1].ls]) for p in pos]
        kw = {}
        for k, v in kws.items():
            kw[k] = v if k != '**' else v[0]
        return args, kw

    def enter(self, f, env, st, selft):
        self.n += 1
        fr = Frame(f, mk('frame', self.n), env, f.module, f.cls, selft)
        self.calls.append(fr)
        return fr

    partials = {}

    def invoke(self, f, pos, kws, st, node, env=None, clos=None):
        """inline a call of an in-package function"""
        if st.dead:
            return one(mk('undef', 'dead'))
        if '**' in kws or '*' in kws:
            kws = self.expand_kw(kws, st)
        if self.misfit(f, pos, kws, node):
            self.raise_builtin(st, 'TypeError', TRUE, node)
            return one(mk('undef', 'arguments of ' + f.name))
        rec = sum(1 for c in self.calls if c.func is f)
        if f in self.opaque or rec > 1 or len(self.calls) > 40 or (rec == 1 and f.name == 'schedule'):
            self.n += 1
            k = self.n
            r = mk('res', k, f.qual)
            args, kw = self.flat(pos, kws)
            self.event('opaque', st, f.qual, None, args, kw, res=r, raises=atom('raises', k), node=node, extra=f)
            if f in self.opaque and getattr(f, 'pure', False):
                return one(r)
            self.raise_maybe(st, k, f.qual, None, node)
            return one(r)
        binds = self.bind_args(f, pos, kws, st, node, clos)
        selft = None
        if f.cls is not None and f.params and not f.static and f.parent is None:
            v = binds.get(f.params[0])
            if v is not None and len(v.ls) == 1:
                selft = v.ls[0][1]
        if f.parent is not None and env is not None and selft is None:
            selft = next((c.selft for c in reversed(self.calls) if c.term is env[0]), None)
        if f.is_gen:
            self.n += 1
            t = mk('gen', self.n, f.qual)
            self.gens[self.n] = (f, binds, env, selft)
            return one(t)
        self.stats['functions'].add(f)
        caller_site = node
        args = [binds.get(p, one(NONE)) for p in f.params]
        self.event('invoke', st, f.qual, None, args, {k: v for k, v in binds.items()}, node=caller_site, extra=f)
        fr = self.enter(f, env, st, selft)
        for k, v in binds.items():
            st.put((fr.term, k), v)
        self.handling.append(one(mk('exc', 'none', 'none'))) if False else None
        if isinstance(f.node, ast.Lambda):
            v = self.ev(f.node.body, st, fr)
            self.calls.pop()
            return v
        self.block(f.node.body, st, fr)
        self.calls.pop()
        outs = list(fr.rets)
        if not st.dead:
            outs.append((st.fork(), one(NONE)))
        s, v = self.merge_v(outs)
        st.become(s)
        return v

    @staticmethod
    def misfit(f, pos, kws, node):
        """the arguments cannot be bound: too many, too few or unknown names"""
        a = f.node.args
        loose = '**' in kws or '*' in kws or any(isinstance(p, tuple) for p in pos)
        if not isinstance(f.node, ast.Lambda) and f.node.decorator_list and not f.static:
            if not all(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property') for d in f.node.decorator_list):
                return False
        allp = [x.arg for x in a.posonlyargs + a.args]
        n = len([p for p in pos if not isinstance(p, tuple)])
        if n > len(allp) and a.vararg is None:
            return True
        if a.kwarg is None and any(k not in allp and k not in f.kwonly for k in kws if k not in ('*', '**')):
            return True
        if loose or isinstance(node, ast.Call) and (any(isinstance(x, ast.Starred) for x in node.args) or any(k.arg is None for k in node.keywords)):
            return False
        given = set(allp[:n]) | set(kws)
        need = allp[:len(allp) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return any(p not in given for p in need)

    def bind_args(self, f, pos, kws, st, node, clos=None):
        binds = {}
        ps = list(f.params)
        i = 0
        extra = []
        for p in pos:
            if isinstance(p, tuple):
                # unknown number of positional arguments
                j = 0
                while i < len(ps):
                    ls = leaves(p[1], st.pc)
                    binds[ps[i]] = self.map1(p[1], st, lambda t, s, j=j: self.seq_index(t, const(j), s, node))
                    i += 1
                    j += 1
                if f.vararg:
                    extra += self.splice(p[1], st)
                continue
            if i < len(ps):
                binds[ps[i]] = p
                i += 1
            else:
                extra.append(('e', TRUE, p))
        if f.vararg:
            binds[f.vararg] = one(self.mklist(st, extra, 'tuple'))
        kwextra = []
        for k, v in kws.items():
            if k == '**':
                continue
            if k in ps or k in f.kwonly:
                binds[k] = v
            else:
                kwextra.append(('set', TRUE, one(const(k)), v))
        stars = kws.get('**', [])
        a = f.node.args
        allp = a.posonlyargs + a.args
        defs = {}
        for arg, d in list(zip(allp[len(allp) - len(a.defaults):], a.defaults)) + \
                [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            defs[arg.arg] = d
        for p in ps + f.kwonly:
            if p in binds:
                continue
            dv = None
            if p in defs:
                if clos is not None and (clos, '$def_' + p) in st.heap:
                    dv = st.heap[(clos, '$def_' + p)]
                else:
                    dv = self.static_default(f, p, defs[p])
            if stars:
                outs, r = [], st.pc
                for sv in stars:
                    for g, t in leaves(sv, st.pc):
                        for g2, v in self.dict_lookup(t, const(p), st):
                            if v is MISSING:
                                if dv is not None:
                                    outs.append((B.all([g, g2]), dv))
                            else:
                                outs.append((B.all([g, g2]) if dv is not None else g, v))
                vv = vnorm([(B.AND(g, g2), t2) for g, v in outs for g2, t2 in v.ls])
                binds[p] = vv if vv.ls else (dv or one(mk('undef', p)))
            elif dv is not None:
                binds[p] = dv
            else:
                binds[p] = one(mk('undef', 'missing argument ' + p))
        if f.kwarg:
            d = self.new('dict')
            st.put((d, '$d'), Ops())
            for sv in stars:
                self.dict_update(d, sv, st)
            st.put((d, '$d'), Ops(self.ops(d, st) + tuple(kwextra)))
            binds[f.kwarg] = one(d)
        return binds

    def static_default(self, f, p, d):
        key = ('def', f, p)
        if key not in self._cattr:
            self._cattr[key] = self.static_eval(d, f.module, f.cls if f.parent is None else None)
        return self._cattr[key]

    def construct(self, c, pos, kws, st, node):
        if c.is_enum and len(pos) == 1 and not isinstance(pos[0], tuple):
            # lookup by value
            def by(t, s):
                if is_const(t):
                    nm = core.enum_member_by_value(c, cval(t))
                    if nm:
                        return one(mk('enum', c, nm))
                if t.op == 'enum' and t.args[0] is c:
                    return one(t)
                if t.op == 'attr' and t.args[1] == 'value' and core.enum_class(t.args[0]) is c:
                    return one(t.args[0])
                g = B.any(eqc(t, const(getattr(e, 'value', None))) for _, e in c.members)
                self.raise_builtin(s, 'ValueError', B.NOT(g), node)
                if all(getattr(e, 'value', None) == nm for nm, e in c.members):
                    return one(mk('enumby', c, t))
                return one(mk('enumval', c, t))
            return self.map1(pos[0], st, by)
        t = self.new(c)
        init = c.find('__init__')
        args, kw = self.flat(pos, kws)
        self.event('new', st, c.qual, t, args, kw, res=t, node=node, extra=c)
        if init is not None:
            self.invoke(init, [one(t)] + pos, kws, st, node)
        elif c.is_exception:
            st.put((t, 'args'), one(self.mklist(st, [('e', TRUE, p) for p in pos if not isinstance(p, tuple)], 'tuple')))
        return one(t)

    def make_nt(self, t, pos, kws, st, node):
        name, fields = t.args
        o = self.new('nt:' + name)
        vals = []
        i = 0
        for p in pos:
            if isinstance(p, tuple):
                j = 0
                while len(vals) < len(fields):
                    vals.append(self.map1(p[1], st, lambda x, s, j=j: self.seq_index(x, const(j), s, node)))
                    j += 1
            else:
                vals.append(p)
        for f, v in zip(fields, vals):
            st.put((o, f), v)
        for k, v in kws.items():
            if k != '**':
                st.put((o, k), v)
        st.put((o, '$l'), Segs([('e', TRUE, v) for v in vals]))
        return one(o)

    # ------------------------------------------------------------------ external calls
    def ext_event(self, name, recv, pos, kws, st, node, may_raise=True, excs=None, pure_res=None):
        self.n += 1
        k = self.n
        r = pure_res if pure_res is not None else mk('res', k, name)
        args, kw = self.flat(pos, kws)
        self.event('call', st, name, recv, args, kw, res=r, raises=atom('raises', k) if may_raise else None, node=node)
        if may_raise:
            self.raise_maybe(st, k, name, excs, node)
        return one(r)

    def app(self, name, vs, st, kws=None):
        names = sorted(kws or {})
        vs = list(vs) + [kws[n] for n in names]
        n0 = len(vs) - len(names)
        out = []
        for g, ts in cross(vs, st.pc):
            pos, kws = list(ts[:n0]), list(zip(names, ts[n0:]))
            if name in ('split', 'rsplit') and kws:          # the names of the parameters of str.split
                d = dict(kws)
                if 'sep' in d and len(pos) == 1:
                    pos.append(d.pop('sep'))
                if 'maxsplit' in d and len(pos) == 1:
                    pos.append(const(None))
                if 'maxsplit' in d and len(pos) == 2:
                    pos.append(d.pop('maxsplit'))
                kws = list(d.items())
            out.append((g, mk('app', name, *(pos + [mk('kw', n, t) for n, t in kws]))))
        return vnorm(out)

    def call_ext(self, d, pos, kws, st, fr, node):
        d = self.canon_ext(d)
        if d.startswith('builtins.'):
            n = d[9:]
            m = getattr(self, 'bi_' + n, None)
            if m is not None and not any(isinstance(p, tuple) for p in pos):
                r = m(pos, kws, st, fr, node)
                if r is not None:
                    return r
            o = getattr(builtins, n, None)
            if isinstance(o, type) and issubclass(o, BaseException):
                t = self.new('x:' + d)
                st.put((t, 'args'), one(self.mklist(st, [('e', TRUE, p) for p in pos if not isinstance(p, tuple)], 'tuple')))
                return one(t)
        if d == 'collections.namedtuple':
            return self.x_namedtuple(pos, kws, st)
        if d in ('collections.OrderedDict',) and not pos and not kws:
            t = self.new('dict')
            st.put((t, '$d'), Ops())
            return one(t)
        if d in ('collections.deque', 'collections.defaultdict') and not pos:
            t = self.new('deque' if d.endswith('deque') else 'dict')
            return one(t)
        if d == 'functools.partial':
            self.n += 1
            self.partials[self.n] = (pos[0], pos[1:], dict(kws))
            return one(mk('partial', self.n))
        if d == 'datetime.timedelta':
            return self.x_timedelta(pos, kws, st)
        if d in ('logging.getLogger',) or d in PURE_EXT:
            if any(isinstance(p, tuple) for p in pos) or '**' in kws:
                return self.ext_event(d, None, pos, kws, st, node)
            nm = {'builtins.round': 'round', 'builtins.repr': 'repr'}.get(d, d)
            v = self.app(nm, pos, st, kws)
            if d in ('copy.copy', 'copy.deepcopy') and len(pos) == 1:
                return self.map1(pos[0], st, lambda t, s: self.x_copy(t, s, d))
            ex = RAISING_PURE.get(d)
            if ex and not all(is_const(t) for _, t in v.ls for t in t.args[1:] if isinstance(t, T)):
                self.n += 1
                self.event('call', st, d, None, pos, kws, res=v.ls[0][1], raises=atom('raises', self.n), node=node)
                self.raise_maybe(st, self.n, d, ex, node)
            elif d.startswith('os.path') or d.startswith('pandas') or d.startswith('copy'):
                pass
            return v
        if d in NOW_EXT:
            return self.ext_event(d, None, pos, kws, st, node, may_raise=False)
        if d == 'heapq.heappop':
            q = pos[0].ls[0][1] if pos and not isinstance(pos[0], tuple) and len(pos[0].ls) == 1 else None
            pr = mk('res', self.n + 1, d, q) if q is not None else None
            return self.ext_event(d, None, pos, kws, st, node, excs=('builtins.IndexError',), pure_res=pr)
        if d == 'contextlib.suppress':
            t = self.new('x:contextlib.suppress')
            st.put((t, '$args'), one(self.mklist(st, [('e', TRUE, p) for p in pos], 'tuple')))
            return one(t)
        if d in ('itertools.chain',):
            segs = []
            for p in pos:
                segs += self.splice(p, st)
            return one(self.mklist(st, segs))
        if d == 'builtins.exec' and len(pos) > 1 and not any(isinstance(p, tuple) for p in pos):
            v = self.ext_event(d, None, pos, kws, st, node)
            for g, t in leaves(pos[-1], st.pc):      # names defined by the executed code
                if self.is_map(t):
                    st.put((t, '$d'), Ops(self.ops(t, st) + (('upd', B.AND(st.pc, g), mk('app', 'exec', v.ls[0][1])),)))
            return v
        if d == 'json.loads' or d == 'json.load':
            return self.ext_event(d, None, pos, kws, st, node)
        return self.ext_event(d, None, pos, kws, st, node, may_raise=d not in NORAISE_EXT)

    def x_copy(self, t, st, d):
        if self.is_seq(t):
            return one(self.mklist(st, self.segs(t, st), t.args[1]))
        if self.is_map(t):
            n = self.new('dict')
            st.put((n, '$d'), self.ops(t, st))
            return one(n)
        return one(mk('app', d, self.base(t, st)))

    def x_namedtuple(self, pos, kws, st):
        nm = pos[0].ls[0][1]
        f = pos[1].ls[0][1]
        fields = None
        if is_strc(f):
            fields = tuple(cval(f).replace(',', ' ').split())
        else:
            es = self.known_elems(f, st)
            if es is not None and all(is_strc(v.ls[0][1]) for v in es):
                fields = tuple(cval(v.ls[0][1]) for v in es)
        if fields is None or not is_strc(nm):
            return one(mk('opaque', 'namedtuple'))
        return one(mk('ntcls', cval(nm), fields))

    def x_timedelta(self, pos, kws, st):
        units = {'days': 86400, 'seconds': 1, 'microseconds': Fraction(1, 10 ** 6), 'milliseconds': Fraction(1, 1000),
                 'minutes': 60, 'hours': 3600, 'weeks': 604800}
        args = dict(kws)
        for nm, p in zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), pos):
            args[nm] = p
        tot = one(const(0))
        for nm, v in args.items():
            if nm not in units:
                return self.app('datetime.timedelta', pos, st, {k: v for k, v in kws.items() if k != '**'})
            v = vnorm([(g, scale(t, Fraction(units[nm]))) for g, t in leaves(v, st.pc)])
            tot = vnorm([(g, add(x, y)) for g, (x, y) in cross([tot, v], st.pc)])
        return tot

    # ---- builtins
    def bi_str(self, pos, kws, st, fr, node):
        if not pos:
            return one(const(''))
        return vnorm([(g, cat([t])) for g, t in leaves(pos[0], st.pc)])

    def _num(self, name, pos, st, node):
        if not pos:
            return one(const(0))

        def f(t, s):
            if is_const(t):
                try:
                    return one(const({'int': int, 'float': float}[name](cval(t))))
                except Exception:
                    self.raise_builtin(s, 'ValueError', TRUE, node)
                    return one(mk('undef', 'num'))
            if t.op == 'app' and t.args[0] == name and len(t.args) == 2:
                return one(t)
            if name == 'int' and (t.op in ('idx',) or (t.op == 'app' and t.args[0] in ('len', 'builtins.ord'))):
                return one(t)
            ty = self.typeof(t)
            if ty and all(x == ('p', name) for x in ty):
                return one(t)
            if not is_num(t) and not (ty and all(x[0] == 'p' and x[1] in ('int', 'float', 'bool') for x in ty)):
                self.n += 1
                self.event('conv', s, name, None, [one(t)], node=node)
                self.raise_maybe(s, self.n, name, ('builtins.ValueError', 'builtins.TypeError'), node)
            return one(mk('app', name, t))
        if len(pos) > 1:
            return self.app(name, pos, st)
        return self.map1(pos[0], st, f)

    def bi_int(self, pos, kws, st, fr, node):
        return self._num('int', pos, st, node)

    def bi_float(self, pos, kws, st, fr, node):
        return self._num('float', pos, st, node)

    def bi_bool(self, pos, kws, st, fr, node):
        return self.vbool(self.truth(pos[0], st)) if pos else one(FALSE_T)

    def bi_abs(self, pos, kws, st, fr, node):
        out = []
        for g, t in leaves(pos[0], st.pc):
            n = lt(t, const(0))
            out += [(B.AND(g, n), scale(t, Fraction(-1))), (B.AND(g, B.NOT(n)), t)]
        return vnorm([(g, t) for g, t in out if sat(B.AND(g, st.pc))])

    def _minmax(self, pos, kws, st, fr, node, mx):
        if kws or len(pos) != 2:
            if len(pos) == 1 and not kws:
                ls = leaves(pos[0], st.pc)
                es = self.known_elems(ls[0][1], st) if len(ls) == 1 and self.is_seq(ls[0][1]) else None
                if es and len(es) == 2:
                    return self._minmax(es, {}, st, fr, node, mx)
            return self.app('max' if mx else 'min', [p if not isinstance(p, tuple) else p[1] for p in pos], st)
        out = []
        for g, (a, b) in cross(pos, st.pc):
            l = lt(a, b)
            out += [(B.AND(g, l), b if mx else a), (B.AND(g, B.NOT(l)), a if mx else b)]
        return vnorm([(g, t) for g, t in out if sat(B.AND(g, st.pc))])

    def bi_max(self, pos, kws, st, fr, node):
        return self._minmax(pos, kws, st, fr, node, True)

    def bi_min(self, pos, kws, st, fr, node):
        return self._minmax(pos, kws, st, fr, node, False)

    def bi_len(self, pos, kws, st, fr, node):
        return vnorm([(g, self.len_t(t, st)) for g, t in leaves(pos[0], st.pc)])

    def bi_isinstance(self, pos, kws, st, fr, node):
        r = FALSE
        for g, (x, c) in cross(pos[:2], st.pc):
            r = B.OR(r, B.AND(g, self.isinst_t(x, c, st)))
        return self.vbool(r)

    def bi_callable(self, pos, kws, st, fr, node):
        r = FALSE
        for g, t in leaves(pos[0], st.pc):
            r = B.OR(r, B.AND(g, TRUE if t.op in ('fn', 'clos', 'bm', 'cls', 'ext') else FALSE if t.op == 'const' else
                              atom('callable', t)))
        return self.vbool(r)

    def _seqcopy(self, kind, pos, st):
        if not pos:
            return one(self.mklist(st, [], kind))

        def f(t, s):
            if self.is_seq(t) or self.is_map(t) or t.op in ('gen', 'keys', 'values', 'items', 'enumerate', 'zip', 'range') \
                    or (t, '$l') in s.heap or (t, '$l') in self.static:
                return one(self.mklist(s, self.splice(one(t), s), kind))
            if is_strc(t) and len(cval(t)) <= 12:
                return one(self.mklist(s, self.splice(one(t), s), kind))
            return one(mk('app', 'set' if kind == 'set' else 'list', self.base(t, s)))
        return self.map1(pos[0], st, f)

    def bi_list(self, pos, kws, st, fr, node):
        return self._seqcopy('list', pos, st)

    def bi_tuple(self, pos, kws, st, fr, node):
        return self._seqcopy('tuple', pos, st)

    def bi_set(self, pos, kws, st, fr, node):
        return self._seqcopy('set', pos, st)

    bi_frozenset = bi_set

    def bi_iter(self, pos, kws, st, fr, node):
        return pos[0] if len(pos) == 1 else None

    def bi_reversed(self, pos, kws, st, fr, node):
        def f(t, s):
            if self.is_seq(t) or (t, '$l') in s.heap:
                es = self.known_elems(t, s)
                if es is not None:
                    return one(self.mklist(s, [('e', TRUE, v) for v in reversed(es)]))
            return one(mk('app', 'reversed', t))
        return self.map1(pos[0], st, f)

    def bi_sorted(self, pos, kws, st, fr, node):
        kw = dict(kws)
        if kw.get('reverse') == one(FALSE_T):
            del kw['reverse']
        v = self.app('sorted', [pos[0]], st, kw)
        self.ext_event('builtins.sorted', None, pos, kw, st, node, may_raise=False, pure_res=v.ls[0][1])
        return v

    def bi_dict(self, pos, kws, st, fr, node):
        t = self.new('dict')
        st.put((t, '$d'), Ops())
        for p in pos:
            if isinstance(p, tuple):
                return None
            for g, x in leaves(p, st.pc):
                if x.op == 'gen':
                    p = one(self.mklist(st, self.splice(one(x), st)))
                elif x.op == 'zip' or x.op == 'items':
                    p = one(self.mklist(st, self.splice(one(x), st)))
            self.dict_update(t, p, st)
        for k, v in kws.items():
            if k == '**':
                for w in v:
                    self.dict_update(t, w, st)
            else:
                st.put((t, '$d'), Ops(self.ops(t, st) + (('set', TRUE, one(const(k)), v),)))
        return one(t)

    def _quant(self, pos, st, fr, node, is_any):
        def f(t, s):
            if not (self.is_seq(t) or t.op in ('gen', 'values', 'keys')):
                return one(mk('app', 'any' if is_any else 'all', t))
            r = FALSE
            for seg in self.splice(one(t), s):
                r = B.OR(r, self._seg_any(seg, s, is_any))
            return self.vbool(r if is_any else B.NOT(r))
        return self.map1(pos[0], st, f)

    def _seg_any(self, seg, s, is_any):
        if seg[0] == 'e':
            tr = self.truth(seg[2], s)
            return B.AND(seg[1], tr if is_any else B.NOT(tr))
        if seg[0] == 'each':
            r = B.any(self._seg_any(x, s, is_any) for x in seg[3])
            ex = atom('exists', seg[2].id, r)
            self.exists_def[B.atom_of[B.nodes[ex][0]]] = (seg[2], r)
            return B.AND(seg[1], ex)
        return B.AND(seg[1], atom('quant', is_any, seg[2] if len(seg) > 2 and isinstance(seg[2], T) else 'u'))

    def _seg_exists(self, seg, test):
        """guard: the loop adds an element for which the test holds; None when that is every iteration or not known"""
        r = FALSE
        for x in seg[3]:
            if x[0] != 'e':
                return None
            r = B.OR(r, B.AND(x[1], test(x[2])))
        if r == TRUE or not seg[3]:
            return None
        if r == FALSE:
            return FALSE
        ex = atom('exists', seg[2].id, r)
        self.exists_def[B.atom_of[B.nodes[ex][0]]] = (seg[2], r)
        return B.AND(seg[1], ex)

    exists_def = {}

    def bi_any(self, pos, kws, st, fr, node):
        return self._quant(pos, st, fr, node, True)

    def bi_all(self, pos, kws, st, fr, node):
        return self._quant(pos, st, fr, node, False)

    def bi_sum(self, pos, kws, st, fr, node):
        def f(t, s):
            if self.is_seq(t) or t.op in ('gen', 'values'):
                segs = self.splice(one(t), s)
                return one(mk('sumof', self.new('list'))) if False else one(self._sum(segs, s))
            return one(mk('app', 'sum', t))
        return self.map1(pos[0], st, f)

    def _sum(self, segs, st):
        t = self.mklist(st, segs)
        return mk('app', 'sum', t)

    def bi_range(self, pos, kws, st, fr, node):
        a = list(pos)
        if len(a) == 1:
            a = [one(const(0)), a[0], one(const(1))]
        elif len(a) == 2:
            a = a + [one(const(1))]
        return vnorm([(g, mk('range', *ts)) for g, ts in cross(a, st.pc)])

    def bi_enumerate(self, pos, kws, st, fr, node):
        start = pos[1] if len(pos) > 1 else kws.get('start', one(const(0)))
        return vnorm([(g, mk('enumerate', *ts)) for g, ts in cross([pos[0], start], st.pc)])

    def bi_zip(self, pos, kws, st, fr, node):
        return vnorm([(g, mk('zip', *ts)) for g, ts in cross(pos, st.pc)])

    def bi_map(self, pos, kws, st, fr, node):
        if len(pos) != 2:
            return None
        acc = self.mklist(st, [])
        pc0 = st.pc

        def body(s, v, L):
            r = self.call(pos[0], [v], {}, s, fr, node)
            if not s.dead:
                s.put((acc, '$l'), Segs(self.segs(acc, s) + (('e', s.pc if s.pc != pc0 else TRUE, r),)))
        for g, t in leaves(pos[1], st.pc):
            self.run_desc(self.iterate(t, st, node), st, self.shield(fr), node, body, LoopCtx())
        return one(acc)

    def shield(self, fr):
        """a frame view whose loop context is not the enclosing loop"""
        f = Frame(fr.func, fr.term, fr.env, fr.module, fr.cls, fr.selft)
        f.locals = fr.locals
        f.rets = fr.rets
        return f

    def bi_filter(self, pos, kws, st, fr, node):
        if len(pos) != 2:
            return None
        acc = self.mklist(st, [])

        def body(s, v, L):
            r = self.call(pos[0], [v], {}, s, fr, node) if pos[0] != one(NONE) else v
            g = self.truth(r, s)
            if not s.dead and sat(B.AND(s.pc, g)):
                s.put((acc, '$l'), Segs(self.segs(acc, s) + (('e', B.AND(s.pc, g), v),)))
        for g, t in leaves(pos[1], st.pc):
            self.run_desc(self.iterate(t, st, node), st, self.shield(fr), node, body, LoopCtx())
        return one(acc)

    def bi_next(self, pos, kws, st, fr, node):
        def f(t, s):
            if self.is_seq(t):
                segs = self.segs(t, s)
                outs, r = [], TRUE
                for x in segs:
                    if x[0] == 'e':
                        outs += [(B.all([r, x[1], g]), tt) for g, tt in x[2].ls]
                        r = B.AND(r, B.NOT(x[1]))
                    elif x[0] == 'each' and len(x[3]) == 1 and x[3][0][0] == 'e':
                        sub = x[3][0]
                        ex = atom('exists', x[2].id, sub[1])
                        self.exists_def[B.atom_of[B.nodes[ex][0]]] = (x[2], sub[1])
                        outs += [(B.all([r, x[1], ex, g]), tt) for g, tt in sub[2].ls]
                        r = B.AND(r, B.NOT(B.AND(x[1], ex)))
                    else:
                        e = atom('nonempty', t)
                        outs.append((B.AND(r, e), mk('item', t, const(0), 'n')))
                        r = B.AND(r, B.NOT(e))
                if len(pos) > 1:
                    outs += [(B.AND(r, g), tt) for g, tt in pos[1].ls]
                else:
                    self.raise_builtin(s, 'StopIteration', r, node)
                return vnorm(outs) if outs else one(mk('undef', 'next'))
            return self.ext_event('next', t, pos[1:], kws, s, node)
        return self.map1(pos[0], st, f)

    def bi_getattr(self, pos, kws, st, fr, node):
        if len(pos[1].ls) == 1 and is_strc(pos[1].ls[0][1]):
            nm = cval(pos[1].ls[0][1])
            return self.map1(pos[0], st, lambda t, s: self.getattr(t, nm, s, node))
        v = self.app('getattr', pos[:2], st)
        out = []
        for g, t in v.ls:
            out.append((g, t))
        self.n += 1
        self.event('call', st, 'getattr', None, pos, kws, res=v.ls[0][1], raises=atom('raises', self.n), node=node)
        if len(pos) < 3:
            self.raise_maybe(st, self.n, 'getattr', ('builtins.AttributeError',), node)
        return v

    def bi_hasattr(self, pos, kws, st, fr, node):
        r = FALSE
        for g, (t, n) in cross(pos, st.pc):
            cs = self.classes_of(t)
            if cs and is_strc(n) and all(c.find(cval(n)) or self._is_field(c, cval(n)) for c in cs):
                r = B.OR(r, g)
            else:
                r = B.OR(r, B.AND(g, atom('hasattr', t, n)))
        return self.vbool(r)

    def bi_setattr(self, pos, kws, st, fr, node):
        for g, (t, n) in cross(pos[:2], st.pc):
            if is_strc(n):
                self.setattr(t, cval(n), pos[2], st, node)
            else:
                self.event('setattr', st, 'setattr', t, [one(n), pos[2]], g=g, node=node)
        return one(NONE)

    def bi_vars(self, pos, kws, st, fr, node):
        return vnorm([(g, mk('vars', t)) for g, t in leaves(pos[0], st.pc)]) if pos else None

    def bi_super(self, pos, kws, st, fr, node):
        if len(pos) == 2:
            out = []
            for g, (c, s) in cross(pos, st.pc):
                if c.op != 'cls':
                    return None
                out.append((g, mk('super', c.args[0], s)))
            return vnorm(out)
        return None

    def bi_type(self, pos, kws, st, fr, node):
        if len(pos) == 1:
            def f(t, s):
                cs = self.classes_of(t)
                if len(cs) == 1:
                    return one(mk('cls', cs[0]))
                return one(mk('app', 'type', t))
            return self.map1(pos[0], st, f)
        return None

    def bi_print(self, pos, kws, st, fr, node):
        return self.ext_event('builtins.print', None, pos, kws, st, node, may_raise=False)

    # ---- methods of external / container / string values
    def call_method(self, t, name, pos, kws, st, fr, node):
        if t.op == 'super' or name.startswith('super.'):
            nm = name[6:] if name.startswith('super.') else name
            if nm == '__init__':
                return one(NONE)
            t2 = t
            return self.container_method(t2, nm, pos, kws, st, fr, node)
        if self._is_logger(t) and name in LOGM | {'setLevel', 'addHandler', 'addFilter'}:
            self.ext_event('log.' + name, t, pos, kws, st, node, may_raise=False)
            return one(NONE)
        if t.op == 'ntcls' and name == '_make' and len(pos) == 1 and not kws:
            return self.make_nt(t, [('*', pos[0])], {}, st, node)
        if self._is_logger(t):
            return self.app(name, [one(t)] + [p for p in pos if not isinstance(p, tuple)], st)
        return self.container_method(t, name, pos, kws, st, fr, node)

    def _is_logger(self, t):
        while t.op == 'app' and t.args[0] == 'getChild':
            t = t.args[1]
        return t.op == 'app' and t.args[0] == 'logging.getLogger' or t.op == 'ext' and t.args[0] == 'logging'

    def container_method(self, t, name, pos, kws, st, fr, node):
        star = any(isinstance(p, tuple) for p in pos)
        if t.op in ('keys', 'values', 'items') and name in ('__iter__',):
            return one(t)
        if t.op == 'members':
            if name in ('get',):
                g = self.haskey(t, pos[0].ls[0][1])
                k = pos[0].ls[0][1]
                dv = pos[1] if len(pos) > 1 else one(NONE)
                return vnorm([(g, mk('enumby', t.args[0], k))] + [(B.AND(B.NOT(g), g2), x) for g2, x in dv.ls])
            if name in ('keys', '__iter__'):
                return one(t)
            if name == 'values':
                return one(self.mklist(st, [('e', TRUE, one(mk('enum', t.args[0], n))) for n, _ in t.args[0].members]))
        if t.op == 'vars':
            if name == 'update':
                self.event('call', st, 'vars.update', t.args[0], pos, kws, node=node)
                for g, d in (leaves(pos[0], st.pc) if pos else []):
                    for o in self.ops(d, st):
                        if o[0] == 'set' and len(o[2].ls) == 1 and is_strc(o[2].ls[0][1]):
                            st.put((t.args[0], cval(o[2].ls[0][1])), o[3])
                        else:
                            # names that are not known: any field may have changed
                            self.n += 1
                            for f in {f for c in self.classes_of(t.args[0]) for k in c.mro() for (k2, f) in self.ty.field if k2 is k}:
                                st.put((t.args[0], f), one(mk('attr', t.args[0], f, self.n)))
                return one(NONE)
        strlike = is_str(t) or t.op == 'fmt'
        if t in self.ucopy and name in DICT_METHODS:
            self.as_map(t, st)
        if strlike and name in PURE_METHODS | {'format', 'join'}:
            return self.str_method(t, name, pos, kws, st, node)
        mp = self.is_map(t) or (t, '$d') in st.heap or (t, '$d') in self.static or self.isdict(t)
        if any(b in ('dict', 'collections.OrderedDict') for c in self.classes_of(t) for b in c.ext_bases()):
            mp = True
        if name in DICT_METHODS or (mp and name in ('pop', 'copy', 'clear', '__contains__', '__getitem__', '__setitem__')):
            if not star:
                return self.meth_dict(t, name, pos, kws, st, node)
        if not star and name in LIST_METHODS | {'pop', 'clear', 'copy', '__getitem__'} and not strlike:
            if name == 'pop' and len(pos) >= 1 and not (is_numc(pos[0].ls[0][1])) and not self.is_seq(t):
                return self.meth_dict(t, name, pos, kws, st, node)
            if self.is_seq(t) or (t, '$l') in st.heap or self._contish(t):
                return self.meth_list(t, name, pos, kws, st, node)
        if name in PURE_METHODS | {'format', 'join'} and not star:
            if name == 'time' and t.op == 'ext':
                pass
            else:
                return self.str_method(t, name, pos, kws, st, node)
        if name == 'now' and t.op == 'ext':
            return self.ext_event('datetime.datetime.now', None, pos, kws, st, node, may_raise=False)
        return self.ext_event('.' + name, t, pos, kws, st, node, may_raise=name not in NORAISE_METHODS)

    def _contish(self, t):
        ty = self.typeof(t)
        if ty is None:
            return t.op in ('item', 'attr', 'sym', 'app', 'elem', 'cell', 'cattr', 'ver', 'ext', 'muout', 'mu', 'phi')
        return any(v[0] in ('k', 'any') for v in ty)

    def str_method(self, t, name, pos, kws, st, node):
        if name in ('startswith', 'endswith') and pos:
            f = startswith if name == 'startswith' else endswith
            r = FALSE
            for g, c in leaves(pos[0], st.pc):
                if is_strc(c) and len(pos) == 1:
                    r = B.OR(r, B.AND(g, f(t, c)))
                elif self.is_seq(c) or (c, '$l') in self.static:
                    for s in self.segs(c, st):
                        if s[0] == 'e':
                            for g2, c2 in s[2].ls:
                                r = B.OR(r, B.all([g, s[1], g2, f(t, c2) if is_strc(c2) else atom(name, t, c2)]))
                        else:
                            r = B.OR(r, atom(name, t, c))
                else:
                    r = B.OR(r, B.AND(g, atom(name, t, c)))
            return self.vbool(r)
        if name == 'format' and is_strc(t):
            return self.format_str(cval(t), pos, kws, st)
        if name == 'decode':
            self.n += 1
            self.raise_maybe(st, self.n, name, ('builtins.UnicodeDecodeError',), node)
        if name == 'join' and len(pos) == 1:
            return self.map1(pos[0], st, lambda x, s: self.join_t(t, x, s))
        if is_strc(t) and all(len(p.ls) == 1 and is_const(p.ls[0][1]) for p in pos) and not kws and hasattr(str, name):
            try:
                r = getattr(cval(t), name)(*[cval(p.ls[0][1]) for p in pos])
                if isinstance(r, (str, int, bool)):
                    return one(const(r))
                if isinstance(r, (list, tuple)):
                    return one(self.mklist(st, [('e', TRUE, one(const(x))) for x in r]))
            except Exception:
                pass
        if name in ('isdigit', 'isnumeric', 'isdecimal', 'isalpha', 'isalnum', 'isspace'):
            return self.vbool(atom('strpred', name, t))
        v = self.app(name, [one(t)] + list(pos), st, {k: x for k, x in kws.items() if k != '**'})
        if name not in PURE_NORAISE:
            self.n += 1
            self.event('call', st, '.' + name, t, pos, kws, res=v.ls[0][1], raises=atom('raises', self.n), node=node)
            self.raise_maybe(st, self.n, name, None, node)
        return v

    def join_t(self, sep, x, st):
        segs = self.splice(one(x), st) if (self.is_seq(x) or x.op == 'gen') else None
        if segs is not None and all(s[0] == 'e' for s in segs):
            # prefixes under the guards of the optional elements
            acc = [(TRUE, ())]
            for s in segs:
                nxt = []
                for g, ps in acc:
                    for g2, t2 in s[2].ls:
                        h = B.all([g, s[1], g2])
                        if sat(B.AND(h, st.pc)):
                            nxt.append((h, ps + ((t2,))))
                    h = B.AND(g, B.NOT(s[1]))
                    if sat(B.AND(h, st.pc)):
                        nxt.append((h, ps))
                acc = nxt
                if len(acc) > 64:
                    return one(mk('app', 'join', sep, x))
            out = []
            for g, ps in acc:
                parts = []
                for i, p in enumerate(ps):
                    if i:
                        parts.append(sep)
                    parts.append(p)
                out.append((g, cat(parts)))
            return vnorm(out)
        return one(mk('app', 'join', sep, x))

    def format_str(self, fmt, pos, kws, st):
        import string
        vs, shape = [], []
        auto = 0
        try:
            for lit, fld, spec, conv in string.Formatter().parse(fmt):
                if lit:
                    shape.append(('l', lit))
                if fld is None:
                    continue
                if fld == '':
                    fld = str(auto)
                    auto += 1
                if fld.isdigit():
                    v = pos[int(fld)]
                elif fld in kws:
                    v = kws[fld]
                else:
                    v = one(mk('app', 'fmtfield', const(fld)))
                    for d in kws.get('**', []):
                        for g, t in leaves(d, st.pc):
                            v = self.sub_load(t, const(fld), st, None, must=False)
                if isinstance(v, tuple):
                    raise IndexError
                vs.append(v)
                shape.append(('v', len(vs) - 1, spec, conv))
        except (IndexError, ValueError, KeyError):
            return one(mk('app', 'format', const(fmt)))
        out = []
        for g, ts in cross(vs, st.pc):
            parts = []
            for s in shape:
                if s[0] == 'l':
                    parts.append(const(s[1]))
                else:
                    parts.append(mk('fmt', ts[s[1]], const(s[2])) if s[2] or s[3] else ts[s[1]])
            out.append((g, cat(parts)))
        return vnorm(out)

    def meth_dict(self, t, name, pos, kws, st, node):
        if name in ('keys', 'values', 'items'):
            return one(mk(name, t))
        if name == 'get' or name == '__getitem__':
            if not pos:
                return self.ext_event('.get', t, pos, kws, st, node)
            dv = pos[1] if len(pos) > 1 else kws.get('default', one(NONE))

            def f(k, s):
                outs = []
                for g, v in self.dict_lookup(t, k, s):
                    src = dv if v is MISSING else v
                    outs += [(B.AND(g, g2), x) for g2, x in src.ls]
                return vnorm(outs) if outs else dv
            if name == '__getitem__':
                return self.map1(pos[0], st, lambda k, s: self.sub_load(t, k, s, node))
            return self.map1(pos[0], st, f)
        if name == 'setdefault':
            dv = pos[1] if len(pos) > 1 else one(NONE)

            def f(k, s):
                outs, miss = [], FALSE
                for g, v in self.dict_lookup(t, k, s):
                    if v is MISSING:
                        miss = B.OR(miss, g)
                        outs += [(B.AND(g, g2), x) for g2, x in dv.ls]
                    else:
                        outs += [(B.AND(g, g2), x) for g2, x in v.ls]
                if sat(B.AND(s.pc, miss)):
                    self.event('setitem', s, '[]', t, [one(k), dv], g=miss, node=node)
                    s.put((t, '$d'), Ops(self.ops(t, s) + (('set', B.AND(s.pc, miss), one(k), dv),)))
                return vnorm(outs)
            return self.map1(pos[0], st, f)
        if name == 'pop':
            def f(k, s):
                outs, miss = [], FALSE
                for g, v in self.dict_lookup(t, k, s):
                    if v is MISSING:
                        miss = B.OR(miss, g)
                        if len(pos) > 1:
                            outs += [(B.AND(g, g2), x) for g2, x in pos[1].ls]
                    else:
                        outs += [(B.AND(g, g2), x) for g2, x in v.ls]
                self.event('delitem', s, 'pop', t, [one(k)] + list(pos[1:]), node=node,
                           g=B.NOT(miss) if len(pos) > 1 else TRUE)
                if len(pos) < 2:
                    self.raise_builtin(s, 'KeyError', miss, node)
                s.put((t, '$d'), Ops(self.ops(t, s) + (('del', s.pc, one(k)),)))
                return vnorm(outs) if outs else one(mk('undef', 'pop'))
            return self.map1(pos[0], st, f)
        if name == 'update':
            self.event('update', st, 'update', t, pos, kws, node=node)
            if pos:
                self.dict_update(t, pos[0], st)
            for k, v in kws.items():
                if k != '**':
                    st.put((t, '$d'), Ops(self.ops(t, st) + (('set', st.pc, one(const(k)), v),)))
            return one(NONE)
        if name == 'clear':
            self.event('clear', st, 'clear', t, node=node)
            st.put((t, '$d'), Ops(self.ops(t, st) + (('clear', st.pc),)))
            if self._contish(t) and not self.is_map(t) and not self.isdict(t):
                st.put((t, '$l'), Segs())
            return one(NONE)
        if name == 'copy':
            n = self.new('dict')
            if self.is_map(t) or (t, '$d') in self.static:
                st.put((n, '$d'), self.ops(t, st))
            else:
                st.put((n, '$d'), Ops((('upd', TRUE, self.base(t, st)),) + tuple(self.ops(t, st))))
            return one(n)
        if name == '__contains__':
            return self.compare(ast.In(), pos[0], one(t), st, node)
        if name == '__setitem__':
            self.sub_store(t, pos[0], pos[1], st, node)
            return one(NONE)
        return self.ext_event('.' + name, t, pos, kws, st, node)

    def meth_list(self, t, name, pos, kws, st, node):
        segs = self.segs(t, st)
        if name == 'clear' and not self.is_seq(t) and (t, '$l') not in st.heap and not self.islist(t):
            st.put((t, '$d'), Ops(self.ops(t, st) + (('clear', st.pc),)))
        if name in ('append', 'add', 'appendleft', 'insert'):
            v = pos[-1] if pos else one(NONE)
            front = name == 'appendleft' or (name == 'insert' and pos[0] == one(const(0)))
            self.event('append', st, name, t, list(pos), node=node)
            seg = ('e', st.pc if not self.local(t) else st.pc, v)
            if name == 'insert' and not front:
                st.put((t, '$l'), Segs([('unk', TRUE)]))
            else:
                st.put((t, '$l'), Segs((seg,) + tuple(segs) if front else tuple(segs) + (seg,)))
            return one(NONE)
        if name == 'extend':
            self.event('extend', st, name, t, list(pos), node=node)
            new = [(s[0], B.AND(st.pc, s[1])) + tuple(s[2:]) for s in self.splice(pos[0], st)]
            st.put((t, '$l'), Segs(tuple(segs) + tuple(new)))
            return one(NONE)
        if name in ('pop', 'popleft'):
            i = cval(pos[0].ls[0][1]) if pos and is_const(pos[0].ls[0][1]) else (0 if name == 'popleft' else -1)
            ev_args = [one(const(i))] if not pos or is_const(pos[0].ls[0][1]) else list(pos)
            if pos and not is_const(pos[0].ls[0][1]):
                r = mk('item', t, pos[0].ls[0][1], len(segs))
                self.event('listpop', st, 'pop', t, ev_args, res=r, node=node)
                st.put((t, '$l'), Segs([('unk', TRUE)]))
                return one(r)
            live = [s for s in segs if sat(B.AND(s[1], st.pc))]
            empty = B.NOT(self.truth_t(t, st)) if (self.is_seq(t) or (t, '$l') in st.heap) else B.NOT(truthy(self.base(t, st)))
            self.raise_builtin(st, 'IndexError', empty, node)
            if st.dead:
                return one(mk('undef', 'pop'))
            if i == 0 and live and live[0][0] == 'e' and core.implies(st.pc, live[0][1]):
                r, rest = live[0][2], live[1:]
            elif i == -1 and live and live[-1][0] == 'e' and core.implies(st.pc, live[-1][1]):
                r, rest = live[-1][2], live[:-1]
            elif i == 0 and live and live[0][0] == 'base':
                b = live[0][2]
                r, rest = one(mk('item', b, const(0))), [('base', live[0][1], mk('tail', b))] + live[1:]
            elif i == -1 and live and live[-1][0] == 'base':
                b = live[-1][2]
                r, rest = one(mk('item', b, const(-1))), live[:-1] + [('base', live[-1][1], mk('init', b))]
            else:
                r, rest = one(mk('item', t, const(i), len(segs))), [('unk', TRUE)]
            self.event('listpop', st, 'pop', t, ev_args, res=r.ls[0][1], node=node)
            st.put((t, '$l'), Segs(rest))
            return r
        if name in ('remove', 'discard'):
            self.event('remove', st, name, t, list(pos), node=node)
            if name == 'remove':
                g = self.truth(self.compare(ast.In(), pos[0], one(t), st, node), st)
                self.raise_builtin(st, 'ValueError', B.NOT(g), node)
            st.put((t, '$l'), Segs([('unk', TRUE)]))
            return one(NONE)
        if name == 'clear':
            self.event('clear', st, name, t, node=node)
            st.put((t, '$l'), Segs())
            return one(NONE)
        if name in ('sort', 'reverse'):
            self.event('sort', st, name, t, list(pos), kws, node=node)
            if len(segs) == 1 and segs[0][0] == 'base':
                st.put((t, '$l'), Segs([('base', TRUE, mk('app', name + 'ed', segs[0][2]))]))
            else:
                st.put((t, '$l'), Segs([('base', TRUE, mk('app', name + 'ed', mk('contents', t, self.n)))])
                       if segs and not all(s[0] == 'e' for s in segs) else segs)
            return one(NONE)
        if name == 'copy':
            n = self.mklist(st, segs)
            if len(segs) == 1 and segs[0][0] == 'base':
                self.ucopy[n] = segs[0][2]
            return one(n)
        if name == '__getitem__':
            return self.map1(pos[0], st, lambda k, s: self.sub_load(t, k, s, node))
        return self.ext_event('.' + name, t, pos, kws, st, node)

    @staticmethod
    def local(t):
        return t.op == 'obj'

    # ------------------------------------------------------------------ roots
    def root_state(self):
        return St({}, TRUE)

    def run(self, f, args=(), kw=None, st=None, env=None, clos=None):
        """analyse function f from a symbolic state; returns Result"""
        st = st or self.root_state()
        first = len(self.events)
        ke, self.excs = self.excs, []
        v = self.invoke(f, list(args), dict(kw or {}), st, f.node, env=env, clos=clos)
        ex, self.excs = self.excs, ke
        ex = [x for x in ex if not x[0].dead]
        es, evv = self.merge_v(ex) if ex else (St({}, FALSE), one(NONE))
        return Result(self, st, v, es, evv, self.events[first:])

    def run_call(self, fv, args, kw, st):
        """analyse a call of a value (closure, bound method) in state st"""
        first = len(self.events)
        ke, self.excs = self.excs, []
        fr = Frame(None, mk('frame', 'root'), None, next(iter(self.prog.modules.values())), None, None)
        fr.locals = set()
        self.calls.append(fr)
        v = self.call(fv, list(args), dict(kw or {}), st, fr, None)
        self.calls.pop()
        ex, self.excs = self.excs, ke
        ex = [x for x in ex if not x[0].dead]
        es, evv = self.merge_v(ex) if ex else (St({}, FALSE), one(NONE))
        return Result(self, st, v, es, evv, self.events[first:])


class Result(object):
    """outcome of a root: normal state/value, exceptional state/value, events in program order"""
    def __init__(self, interp, st, value, exc_st, exc, events):
        self.interp, self.st, self.value, self.exc_st, self.exc, self.events = interp, st, value, exc_st, exc, events


def _load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t
