"""Interned terms, guarded values, linear normal forms and the theory of guard atoms."""
import builtins
from fractions import Fraction
from .bdd import BDD, TRUE, FALSE
from .model import Class, Func

B = BDD()


class T(object):
    __slots__ = ('op', 'args', 'id')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args):
    k = (op, args)
    t = T._tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args = op, args
        T._n += 1
        t.id = T._n
        T._tab[k] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v)


NONE, TRUE_T, FALSE_T = const(None), const(True), const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[1]


def is_numc(t):
    return t.op == 'const' and t.args[0] in ('int', 'float', 'Fraction')


def is_strc(t):
    return t.op == 'const' and t.args[0] == 'str'


# ---------------------------------------------------------------- guarded values
class V(object):
    """disjoint guarded terms"""
    __slots__ = ('ls',)

    def __init__(self, ls):
        self.ls = tuple(ls)

    def __repr__(self):
        if len(self.ls) == 1 and self.ls[0][0] == TRUE:
            return show(self.ls[0][1])
        return '{' + '; '.join('%s if %s' % (show(t), gshow(g)) for g, t in self.ls) + '}'

    def __eq__(self, o):
        return isinstance(o, V) and (self.ls == o.ls or (len(self.ls) == len(o.ls) and set(self.ls) == set(o.ls)))

    def __hash__(self):
        return hash(frozenset(self.ls))


def one(t):
    return V(((TRUE, t),))


def vnorm(pairs):
    """merge leaves with equal terms"""
    d = {}
    for g, t in pairs:
        if g == FALSE:
            continue
        d[t] = B.OR(d[t], g) if t in d else g
    if len(d) == 1:
        return V([(TRUE, t) for t in d])
    return V([(g, t) for t, g in d.items()])


MAXLEAVES = 64
_phi = [0]


def leaves(v, pc):
    out = []
    if len(v.ls) == 1:
        return [(TRUE, v.ls[0][1])] if sat(pc) else []
    for g, t in v.ls:
        if sat(B.AND(g, pc)):
            out.append((g, t))
    if len(out) == 1:
        return [(TRUE, out[0][1])]
    return out


def cross(vs, pc):
    """[(guard, (terms...))] feasible under pc"""
    acc = [(TRUE, ())]
    for v in vs:
        ls = leaves(v, pc)
        nxt = []
        for g, ts in acc:
            for g2, t in ls:
                gg = B.AND(g, g2)
                if gg != FALSE and sat(B.AND(gg, pc)):
                    nxt.append((gg, ts + (t,)))
        acc = nxt
        if len(acc) > MAXLEAVES:
            _phi[0] += 1
            return [(TRUE, tuple(mk('phi', _phi[0], i) for i in range(len(vs))))]
    return acc


# ---------------------------------------------------------------- linear forms
def as_lin(t):
    if is_numc(t):
        return Fraction(cval(t)).limit_denominator(10 ** 9), {}
    if t.op == 'lin':
        return t.args[0], dict(t.args[1])
    return Fraction(0), {t: Fraction(1)}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(int(c)) if c.denominator == 1 else const(float(c))
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b, sign=1):
    ca, da = as_lin(a)
    cb, db = as_lin(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mklin(ca + sign * cb, d)


def scale(a, f):
    c, d = as_lin(a)
    return mklin(c * f, {k: v * f for k, v in d.items()})


STRAPPS = {'strftime', 'strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'zfill', 'format', 'join',
           'readline', 'os.path.join', 'os.path.abspath', 'os.path.expanduser', 'read', 'removesuffix', 'removeprefix'}


def is_str(t):
    if t.op == 'app' and t.args[0] == 'replace':     # also a method of moments
        return not any(isinstance(a, T) and a.op == 'kw' for a in t.args[2:]) and len(t.args) in (4, 5)
    return is_strc(t) or t.op in ('cat', 'fmt') or (t.op == 'app' and t.args[0] in STRAPPS) or \
        (t.op == 'ext' and t.args[0] in ('os.linesep', 'os.sep')) or (t.op == 'res' and t.args[1] in STRAPPS) or \
        (t.op in ('mu', 'muout') and t in STRS)


MUOUT = {}          # value of a variable after a loop -> its values before the loop and after a pass
STRS = set()        # loop variables that are text before the loop and after every pass


NUMAPPS = {'len', 'int', 'float', 'abs', 'round', 'timedelta', 'builtins.len', 'time.time', 'sum', 'hash', 'mul',
           'div', 'floordiv', 'mod', 'datetime.datetime.combine', 'timestamp', 'date', 'datetime.datetime.now',
           'builtins.int', 'builtins.float', 'builtins.round', 'builtins.sum', 'datetime.datetime.strptime',
           'datetime.date.today', 'total_seconds', 'datetime.datetime.today', 'index', 'tell'}


def is_num(t):
    return is_numc(t) or t.op == 'lin' or t.op == 'idx' or (t.op == 'app' and (t.args[0] in NUMAPPS or t.args[0] == 'replace' and not is_str(t))) or \
        (t.op == 'res' and t.args[1] in NUMAPPS)


# ---------------------------------------------------------------- strings
def cat(parts):
    out = []
    for p in parts:
        ps = p.args[0] if p.op == 'cat' else (p,)
        for q in ps:
            if q.op == 'const':
                q = const(q.args[1] if q.args[0] == 'str' else str(q.args[1]))
                if q.args[1] == '':
                    continue
                if out and is_strc(out[-1]):
                    out[-1] = const(out[-1].args[1] + q.args[1])
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and is_str(out[0]):
        return out[0]
    return mk('cat', tuple(out))


# ---------------------------------------------------------------- atoms
class Atoms(object):
    loops = ()          # current loop stack (set by the interpreter)


def atom(kind, *args):
    a = mk(kind, *args)
    return B.var(a, Atoms.loops, group_of(a))


def group_of(a):
    """the term an atom is about: atoms with the same group are neighbours in the variable order"""
    if a.op == 'haskey':
        return group_term(mk('item', a.args[0], a.args[1]))
    if a.op in ('isnone', 'truthy', 'eqc', 'isinst', 'starts', 'ends', 'lt', 'eqn', 'substr') and isinstance(a.args[0], T):
        return group_term(a.args[0])
    return None


def group_term(t):
    for _ in range(12):
        if t.op == 'lin':
            ks = [group_term(k) for k, _ in t.args[1]]
            flat = set()
            for k, _ in t.args[1]:
                while k.op == 'app' and len(k.args) == 2 and k.args[0] in ('date', 'time'):
                    k = k.args[1]
                flat |= set(as_lin(k)[1])
            if len(flat) > 2:       # about several things: a group of its own, at the end of the order
                return mk('grp', tuple(sorted(k.id for k in flat if k.op not in ('attr', 'sym'))))
            for k in ks:
                if k.op == 'item':
                    return k
            for k in ks:
                if k in B.groups:
                    return k
            return ks[0]
        if t.op in ('app', 'enumby', 'enumval', 'slice') and len(t.args) > 1 and isinstance(t.args[1], T):
            t = t.args[1]
        elif t.op == 'cat' and t.args[0]:
            t = next((x for x in t.args[0] if not is_const(x)), t.args[0][0])
        else:
            return t
    return t


class Info(object):
    """type oracle installed by the interpreter"""
    types = staticmethod(lambda t: None)       # -> set of abstract 0-CFA values or None
    excset = {}                                # exc term -> tuple of exception names


def enum_class(t):
    if t.op == 'enum':
        return t.args[0]
    if t.op == 'enumby':
        return t.args[0]
    ty = Info.types(t)
    if ty:
        cs = {x[1] for x in ty if x[0] == 'i'}
        if len(cs) == 1 and all(x[0] == 'i' or x == ('p', 'None') for x in ty):
            c = next(iter(cs))
            if c.is_enum:
                return c
    return None


NOWS = {'datetime.datetime.now': ('datetime.datetime', 'datetime.date'), 'datetime.date.today': ('datetime.date',),
        'time.time': ('float',), 'datetime.datetime.today': ('datetime.datetime', 'datetime.date'),
        'time.monotonic': ('float',)}


def nonnull(t):
    if t.op in ('obj', 'enum', 'cat', 'lin', 'fmt', 'cls', 'fn', 'bm', 'clos', 'mod', 'ext', 'enumby', 'exc', 'frame',
                'idx', 'members', 'new', 'partial', 'xm', 'single', 'inst'):
        return True
    if t.op == 'res' and t.args[1] in NOWS:
        return True
    if t.op == 'const':
        return t.args[1] is not None
    if t.op == 'item':
        return not (isinstance(t.args[0], T) and t.args[0].op == 'app' and t.args[0].args[0] == 'exec')
    if t.op == 'elem':
        return t.args[0].op != 'sym'
    if t.op == 'app':
        return t.args[0] not in ('re.match', 're.search', 're.fullmatch', 'getattr')
    ty = Info.types(t)
    if ty and not any(x in (('any',), ('p', 'None')) or x[0] == 'xi' for x in ty):
        return True
    return False


def isnone(t):
    if t == NONE:
        return TRUE
    if nonnull(t):
        return FALSE
    return atom('isnone', t)


def only_instances(t):
    ty = Info.types(t)
    return bool(ty) and all(x == ('p', 'None') or (x[0] == 'i' and not (
        x[1].find('__bool__') or x[1].find('__len__') or any(b in ('dict', 'list', 'str', 'set') for b in x[1].ext_bases()))) for x in ty)


def truthy(t):
    """guard under which the (non-container) term is true"""
    if t.op == 'const':
        return TRUE if t.args[1] else FALSE
    if t.op in ('enum', 'cls', 'fn', 'bm', 'clos', 'mod', 'enumby', 'exc', 'new', 'ext', 'partial', 'xm'):
        return TRUE
    if t.op == 'cat':
        if any(is_strc(p) for p in t.args[0]):
            return TRUE
    if t.op == 'lin' or (t.op == 'app' and t.args[0] in ('len', 'abs')):
        return B.NOT(eq(t, const(0)))
    if t.op == 'app' and t.args[0] == 'bool':
        return truthy(t.args[1])
    if t.op == 'app' and t.args[0] in ('datetime.datetime.now', 'datetime.datetime.combine',
                                       'datetime.datetime.strptime', 'datetime.datetime.fromtimestamp', 'date',
                                       'datetime.time', 'datetime.date', 'datetime.datetime', 'combine'):
        return TRUE
    if t.op == 'app' and t.args[0] in ('re.match', 're.search', 're.fullmatch'):
        return B.NOT(isnone(t))
    if t.op == 'res' and t.args[1] in ('.tell', '.seek'):
        return B.NOT(eq(t, const(0)))
    if t.op == 'res' and NOWS.get(t.args[1], ('float',)) != ('float',) or t.op in ('single', 'inst'):
        return TRUE
    if only_instances(t):
        return B.NOT(isnone(t))
    return atom('truthy', t)


def enum_member_by_value(c, val):
    for nm, e in c.members:
        if getattr(e, 'value', None) == val:
            return nm
    return None


def eqc(t, c):
    """t equals the non-numeric constant-like term c"""
    if t == c:
        return TRUE
    if t.op in ('const', 'enum', 'cls', 'fn') and c.op in ('const', 'enum', 'cls', 'fn'):
        return FALSE
    if c == NONE:
        return isnone(t)
    if c.op == 'enum':
        k = enum_class(t)
        if k is not None:
            if k is not c.args[0]:
                return FALSE
            if t.op == 'enumby':
                return eqc(t.args[1], const(c.args[1]))
            if len(k.members) == 2 and nonnull(t):
                first = mk('enum', k, k.members[0][0])
                if c != first:
                    return B.NOT(atom('eqc', t, first))
        if is_str(t) or is_num(t):
            return FALSE
    if is_strc(c):
        if t.op == 'attr' and t.args[1] == 'value':
            k = enum_class(t.args[0])
            if k is not None:
                nm = enum_member_by_value(k, cval(c))
                return eqc(t.args[0], mk('enum', k, nm)) if nm else FALSE
        if t.op == 'attr' and t.args[1] == 'name':
            k = enum_class(t.args[0])
            if k is not None:
                return eqc(t.args[0], mk('enum', k, cval(c))) if any(m == cval(c) for m, _ in k.members) else FALSE
        if t.op in ('enum', 'lin', 'cls', 'fn', 'clos', 'bm', 'obj'):
            return FALSE
        if t.op == 'cat' and t.args[0]:
            a, b = t.args[0][0], t.args[0][-1]
            if is_strc(a) and not cval(c).startswith(cval(a)):
                return FALSE
            if is_strc(b) and not cval(c).endswith(cval(b)):
                return FALSE
        if t.op == 'slice':
            # x[-n:] == "lit"  <=>  x.endswith("lit") when len(lit) == n; same for prefixes
            x, lo, hi, st = t.args
            s = cval(c)
            if st is None and hi is None and isinstance(lo, int) and lo < 0 and len(s) == -lo:
                return endswith(x, c)
            if st is None and lo in (None, 0) and isinstance(hi, int) and hi > 0 and len(s) == hi:
                return startswith(x, c)
    return atom('eqc', t, c)


def endswith(x, c):
    if is_strc(x):
        return TRUE if cval(x).endswith(cval(c)) else FALSE
    if cval(c) == '':
        return TRUE
    if x.op == 'cat' and is_strc(x.args[0][-1]) and len(cval(x.args[0][-1])) >= len(cval(c)):
        return TRUE if cval(x.args[0][-1]).endswith(cval(c)) else FALSE
    return atom('ends', x, c)


def startswith(x, c):
    if is_strc(x):
        return TRUE if cval(x).startswith(cval(c)) else FALSE
    if cval(c) == '':
        return TRUE
    if x.op == 'cat' and is_strc(x.args[0][0]) and len(cval(x.args[0][0])) >= len(cval(c)):
        return TRUE if cval(x.args[0][0]).startswith(cval(c)) else FALSE
    return atom('starts', x, c)


def _cmp(a, b):
    l = add(a, b, -1)
    c, d = as_lin(l)
    if not d:
        return None, c, 1
    lead = min(d, key=lambda k: k.id)
    k = d[lead]
    return mklin(Fraction(0), {x: v / k for x, v in d.items()}), -c / k, (1 if k > 0 else -1)


def untimestamp(a, b):
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] == 'timestamp' and len(a.args) == len(b.args) == 2:
        return a.args[1], b.args[1]
    return a, b


def lt(a, b):
    a, b = untimestamp(a, b)
    if is_strc(a) and is_strc(b):
        return TRUE if cval(a) < cval(b) else FALSE
    l, bound, s = _cmp(a, b)
    if l is None:
        return TRUE if bound < 0 else FALSE
    if s > 0:
        return atom('lt', l, bound)
    return B.AND(B.NOT(atom('lt', l, bound)), B.NOT(atom('eqn', l, bound)))


def eq(a, b):
    a, b = untimestamp(a, b)
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if (y.op == 'const' and not is_numc(y)) or y.op in ('enum', 'cls', 'fn'):
            if y.op == 'const' and y.args[0] == 'bool' and is_numc(x):
                return TRUE if cval(x) == cval(y) else FALSE
            return eqc(x, y)
    if a.op == 'attr' and b.op == 'attr' and a.args[1] == b.args[1] == 'value' and enum_class(a.args[0]) is not None \
            and enum_class(a.args[0]) is enum_class(b.args[0]):
        return eq(a.args[0], b.args[0])
    if a.op == 'enumby' and b.op == 'enumby' and a.args[0] is b.args[0]:
        return eq(a.args[1], b.args[1])
    if is_str(a) and is_numc(b) or is_str(b) and is_numc(a):
        return FALSE
    if a.op in ('obj', 'clos', 'bm') and b.op in ('obj', 'clos', 'bm'):
        return FALSE
    # str(x) == str(y) is kept apart from x == y
    l, bound, s = _cmp(a, b)
    if l is None:
        return TRUE if bound == 0 else FALSE
    return atom('eqn', l, bound)


# ---------------------------------------------------------------- exceptions and classes
def exc_sub(a, b):
    """is exception class a (repo Class or dotted name) a subclass of b?  True / False / None unknown"""
    if a == b:
        return True
    bn = b.name if isinstance(b, Class) else b.split('.')[-1]
    if bn in ('Exception', 'BaseException'):
        return True
    if isinstance(a, Class):
        if isinstance(b, Class):
            return b in a.mro()
        return any(exc_sub(x, b) for x in a.ext_bases()) or False
    an = a.split('.')[-1]
    if isinstance(b, Class):
        return False
    ab, bb = getattr(builtins, an, None), getattr(builtins, bn, None)
    if isinstance(ab, type) and isinstance(bb, type):
        return issubclass(ab, bb)
    if an == 'ParserError':
        return True if bn == 'ValueError' else False
    return None


_BUILTIN_KINDS = {'str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'bytes', 'bool', 'complex', 'frozenset'}


def isinst(t, c):
    """guard of isinstance(t, c); c is a repo Class or a dotted external name"""
    cn = c if isinstance(c, str) else None
    if cn and cn.startswith('builtins.'):
        cn = c = cn[9:]
    if cn == 'object':
        return TRUE
    if t.op == 'const':
        v = t.args[1]
        if cn and hasattr(builtins, cn) and isinstance(getattr(builtins, cn), type):
            return TRUE if isinstance(v, getattr(builtins, cn)) else FALSE
        return FALSE
    if t.op == 'enum' or t.op == 'enumby':
        return TRUE if isinstance(c, Class) and c in t.args[0].mro() else FALSE
    if t.op == 'obj':
        k = t.args[1]
        if isinstance(k, Class):
            if isinstance(c, Class):
                return TRUE if c in k.mro() else FALSE
            if k.is_exception:
                r = exc_sub(k, c)
                return TRUE if r else FALSE
            return TRUE if cn in k.ext_bases() else FALSE
        if isinstance(k, str) and k.startswith('x:'):
            k = k[2:]
            if k == c:
                return TRUE
            r = exc_sub(k, c)
            if r is not None:
                return TRUE if r else FALSE
            return atom('isinst', t, c)
        return TRUE if k == cn else FALSE
    if t.op == 'exc':
        es = Info.excset.get(t)
        if es:
            rs = [exc_sub(e, c) for e in es]
            if all(r is True for r in rs):
                return TRUE
            if all(r is False for r in rs):
                return FALSE
        else:
            if exc_sub('builtins.Exception', c):
                return TRUE
        return atom('isinst', t, c)
    if t.op in ('cat', 'fmt') or is_str(t):
        return TRUE if cn == 'str' else FALSE
    if t.op in ('cls', 'fn', 'bm', 'clos', 'mod'):
        return FALSE
    if t.op == 'res' and t.args[1] in NOWS and cn:
        return TRUE if cn in NOWS[t.args[1]] else FALSE
    if t.op == 'single':
        return TRUE if isinstance(c, Class) and c in t.args[0].mro() else FALSE
    if t.op == 'app' and t.args[0] == 'datetime.datetime.combine':
        return TRUE if cn in ('datetime.datetime', 'datetime.date') else FALSE
    return atom('isinst', t, c)


def cls_rel(a, b):
    """'sub' a<=b, 'sup', 'disj', None"""
    if isinstance(a, Class) and isinstance(b, Class):
        if b in a.mro():
            return 'sub'
        if a in b.mro():
            return 'sup'
        return 'disj'
    if isinstance(a, str) and isinstance(b, str):
        if a in _BUILTIN_KINDS and b in _BUILTIN_KINDS:
            if a == 'bool' and b == 'int':
                return 'sub'
            if a == 'int' and b == 'bool':
                return 'sup'
            return 'disj'
        ra, rb = exc_sub(a, b), exc_sub(b, a)
        if ra:
            return 'sub'
        if rb:
            return 'sup'
        dt = ('datetime.datetime', 'datetime.time', 'datetime.date', 'str')
        if a in dt and b in dt:
            if (a, b) == ('datetime.datetime', 'datetime.date'):
                return 'sub'
            if (b, a) == ('datetime.datetime', 'datetime.date'):
                return 'sup'
            return 'disj'
        if ra is False and rb is False:
            return 'disj'
    elif {type(a), type(b)} == {str, Class}:
        s = a if isinstance(a, str) else b
        if s in _BUILTIN_KINDS or s.startswith('datetime.'):
            return 'disj'
    return None


# ---------------------------------------------------------------- theory
_pair = {}


def _subject(a):
    if a.op in ('isnone', 'truthy', 'eqc', 'isinst', 'starts', 'ends', 'lt', 'eqn'):
        return a.args[0]
    return None


def _pairc(i, j):
    k = (i, j)
    r = _pair.get(k)
    if r is not None:
        return r
    a, b = B.atom_of[i], B.atom_of[j]
    va, vb = B.mk(i, FALSE, TRUE), B.mk(j, FALSE, TRUE)
    r = TRUE

    def imp(x, y):
        return B.OR(B.NOT(x), y)

    def excl():
        return B.NOT(B.AND(va, vb))

    def one_way(a, b, va, vb):
        if a.op == 'isnone':
            if b.op in ('truthy', 'isinst', 'eqc', 'starts', 'ends'):
                return excl()
            if b.op in ('eqn',) and b.args[0] is a.args[0]:
                return excl()
        if a.op == 'eqc':
            if b.op == 'truthy':
                c = a.args[1]
                tv = bool(c.args[1]) if c.op == 'const' else True
                return imp(va, vb if tv else B.NOT(vb))
            if b.op == 'isinst':
                g = isinst(a.args[1], b.args[1])
                return imp(va, vb) if g == TRUE else imp(va, B.NOT(vb)) if g == FALSE else TRUE
            if b.op in ('starts', 'ends') and is_strc(a.args[1]):
                s, x = cval(a.args[1]), cval(b.args[1])
                ok = s.startswith(x) if b.op == 'starts' else s.endswith(x)
                return imp(va, vb if ok else B.NOT(vb))
        if a.op == 'eqn' and b.op == 'truthy':
            return imp(va, B.NOT(vb)) if a.args[1] == 0 else imp(va, vb)
        if a.op == 'lt' and b.op == 'eqn':
            c1, c2 = a.args[1], b.args[1]
            return imp(vb, va) if c2 < c1 else imp(vb, B.NOT(va))
        if a.op in ('starts', 'ends') and b.op == 'truthy':
            return imp(va, vb)
        if a.op == 'isinst' and b.op == 'truthy' and isinstance(a.args[1], Class) and not (
                a.args[1].find('__bool__') or a.args[1].find('__len__')):
            return imp(va, vb)
        return TRUE

    if a.args[0] is b.args[0]:
        if a.op == b.op:
            if a.op in ('eqc', 'eqn'):
                r = excl()
            elif a.op == 'lt':
                r = imp(va, vb) if a.args[1] <= b.args[1] else imp(vb, va)
            elif a.op == 'isinst':
                rel = cls_rel(a.args[1], b.args[1])
                r = imp(va, vb) if rel == 'sub' else imp(vb, va) if rel == 'sup' else excl() if rel == 'disj' else TRUE
            elif a.op in ('starts', 'ends'):
                x, y = cval(a.args[1]), cval(b.args[1])
                f = str.startswith if a.op == 'starts' else str.endswith
                r = imp(va, vb) if f(x, y) else imp(vb, va) if f(y, x) else excl()
        else:
            r = one_way(a, b, va, vb)
            if r == TRUE:
                r = one_way(b, a, vb, va)
    _pair[k] = r
    return r


_theory = {}
USE_FACTS = [False]
FACTS = {}          # abrupt/ever atom -> guard of one iteration that makes it true


def theory(sup):
    """conjunction of the facts that relate the atoms in sup"""
    r = _theory.get(sup)
    if r is not None:
        return r
    groups = {}
    for v in sup:
        s = _subject(B.atom_of[v])
        if s is not None:
            groups.setdefault(s, []).append(v)
    r = TRUE
    for s, vs in groups.items():
        if len(vs) > 1:
            vs.sort()
            for i in range(len(vs)):
                for j in range(i + 1, len(vs)):
                    r = B.AND(r, _pairc(vs[i], vs[j]))
            k = enum_class(s)
            if k is not None and nonnull(s):
                mem = [v for v in vs if B.atom_of[v].op == 'eqc' and B.atom_of[v].args[1].op == 'enum']
                if len(mem) == len(k.members):
                    r = B.AND(r, B.any(B.mk(v, FALSE, TRUE) for v in mem))
    for v in sup:
        g = FACTS.get(v) if USE_FACTS[0] else None
        if g is not None and len(B.support(g)) <= 24:
            r = B.AND(r, B.OR(B.NOT(g), B.mk(v, FALSE, TRUE)))
    # a loop is left in one way
    ab = {}
    for v in sup:
        a = B.atom_of[v]
        if a.op == 'abrupt':
            ab.setdefault(a.args[0], []).append(v)
    for vs in ab.values():
        for i in range(len(vs)):
            for j in range(i + 1, len(vs)):
                r = B.AND(r, B.NOT(B.AND(B.mk(vs[i], FALSE, TRUE), B.mk(vs[j], FALSE, TRUE))))
    # date(x) < date(y) implies x < y; on the same date x < y is time(x) < time(y)
    parts = {}
    for v in sup:
        a = B.atom_of[v]
        if a.op in ('lt', 'eqn') and a.args[1] == 0 and a.args[0].op == 'lin':
            d = sorted(a.args[0].args[1], key=lambda kc: kc[1])
            if len(d) == 2 and a.args[0].args[0] == 0 and d[0][1] == -1 and d[1][1] == 1 and \
                    all(k.op == 'app' and len(k.args) == 2 and k.args[0] in ('date', 'time') for k, _ in d) and d[0][0].args[0] == d[1][0].args[0]:
                parts.setdefault((d[1][0].args[1], d[0][0].args[1]), set()).add(d[0][0].args[0])
    for (x, y), kinds in parts.items():
        if 'date' not in kinds:
            continue
        less, same = lt(x, y), eq(x, y)
        if not (B.support(less) | B.support(same)) & sup:
            continue
        dx, dy = mk('app', 'date', x), mk('app', 'date', y)
        dl, de = lt(dx, dy), eq(dx, dy)
        dg = B.NOT(B.OR(dl, de))
        tx, ty = mk('app', 'time', x), mk('app', 'time', y)
        tl, te = lt(tx, ty), eq(tx, ty)
        r = B.all([r, B.OR(B.NOT(dl), less), B.OR(B.NOT(dg), B.NOT(B.OR(less, same))), B.NOT(B.AND(dl, de)), B.NOT(B.AND(less, same)),
                   B.OR(B.NOT(same), B.AND(de, te)), B.NOT(B.AND(tl, te)),
                   B.OR(B.NOT(de), B.AND(B.OR(B.AND(tl, less), B.AND(B.NOT(tl), B.NOT(less))), B.OR(B.AND(te, same), B.AND(B.NOT(te), B.NOT(same)))))])
    # transitivity of differences: x-y, y-z, x-z with bound 0
    diffs = {}
    for v in sup:
        a = B.atom_of[v]
        if a.op in ('lt', 'eqn') and a.args[1] == 0 and a.args[0].op == 'lin' and len(a.args[0].args[1]) == 2 \
                and a.args[0].args[0] == 0:
            (x, cx), (y, cy) = a.args[0].args[1]
            if cx == 1 and cy == -1:
                diffs.setdefault((x, y), {})[a.op] = B.mk(v, FALSE, TRUE)
    if len(diffs) > 2:
        ks = list(diffs)

        def le(x, y):       # x < y or unknown(None)
            if (x, y) in diffs:
                return diffs[(x, y)].get('lt')
            if (y, x) in diffs:
                d = diffs[(y, x)]
                if 'lt' in d and 'eqn' in d:
                    return B.NOT(B.OR(d['lt'], d['eqn']))
            return None
        names = sorted({z for k in ks for z in k}, key=lambda q: q.id)
        if len(names) <= 6:
            for x in names:
                for y in names:
                    for z in names:
                        if x is y or y is z or x is z:
                            continue
                        a, b, c = le(x, y), le(y, z), le(x, z)
                        if a is not None and b is not None and c is not None:
                            r = B.AND(r, B.OR(B.NOT(B.AND(a, b)), c))
    _theory[sup] = r
    return r


_sat = {}


def sat(f):
    if f == FALSE:
        return False
    if f == TRUE:
        return True
    r = _sat.get(f)
    if r is None:
        r = B.AND(f, theory(B.support(f))) != FALSE
        _sat[f] = r
    return r


def implies(f, g):
    return not sat(B.AND(f, B.NOT(g)))


def equiv(f, g, under=TRUE):
    return implies(B.AND(under, f), g) and implies(B.AND(under, g), f)


# ---------------------------------------------------------------- substitution and printing
def subterms(t, acc=None):
    acc = set() if acc is None else acc
    if t in acc:
        return acc
    acc.add(t)
    _sub_args(t.args, acc)
    return acc


def _sub_args(args, acc):
    for a in args:
        if isinstance(a, T):
            subterms(a, acc)
        elif isinstance(a, tuple):
            _sub_args(a, acc)
        elif isinstance(a, V):
            for _, t in a.ls:
                subterms(t, acc)


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, Fraction):
            return str(t)
        return getattr(t, 'name', None) or repr(t)
    if depth > 6:
        return '...'
    d = depth + 1
    a = t.args
    if t.op == 'const':
        return repr(a[1])
    if t.op == 'sym':
        return a[0]
    if t.op == 'attr':
        return '%s.%s%s' % (show(a[0], d), a[1], '' if not a[2] else '@%s' % a[2])
    if t.op == 'item':
        return '%s[%s]' % (show(a[0], d), show(a[1], d))
    if t.op == 'enum':
        return '%s.%s' % (a[0].name, a[1])
    if t.op == 'obj':
        k = a[1]
        return '<%s#%d>' % (k.name if isinstance(k, Class) else k, a[0])
    if t.op in ('fn', 'cls', 'mod'):
        return a[0].name
    if t.op == 'bm':
        return '%s.%s' % (show(a[1], d), a[0].name)
    if t.op == 'clos':
        return '<closure %s>' % a[0].name
    if t.op == 'ext':
        return a[0]
    if t.op == 'lin':
        s = ' + '.join('%s%s' % ('' if c == 1 else '-' if c == -1 else '%s*' % c, show(x, d)) for x, c in a[1])
        return '(%s%s)' % (s, '' if a[0] == 0 else ' + %s' % a[0])
    if t.op == 'cat':
        return 'cat(%s)' % ', '.join(show(x, d) for x in a[0])
    if t.op == 'app':
        return '%s(%s)' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if t.op == 'res':
        return '%s()#%s' % (a[1], a[0])
    if t.op == 'elem':
        return 'each(%s)' % show(a[0], d)
    if t.op in ('mu', 'muout'):
        return '%s[%s]' % (t.op, a[1])
    if t.op == 'exc':
        return 'exception of %s' % a[1]
    if t.op == 'eqc':
        return '%s==%s' % (show(a[0], d), show(a[1], d))
    if t.op == 'eqn':
        return '%s==%s' % (show(a[0], d), a[1])
    if t.op == 'lt':
        return '%s<%s' % (show(a[0], d), a[1])
    return '%s(%s)' % (t.op, ', '.join(show(x, d) if isinstance(x, T) else
                                       (getattr(x, 'name', None) or str(x)) for x in a))


def gshow(g, maxn=3):
    """a readable disjunction of the guard"""
    if g == TRUE:
        return 'always'
    if g == FALSE:
        return 'never'
    out = []

    def go(n, acc):
        if len(out) >= maxn or n == FALSE:
            return
        if n == TRUE:
            out.append(' and '.join(acc) or 'always')
            return
        v, lo, hi = B.nodes[n]
        nm = show(B.atom_of[v])
        go(hi, acc + [nm])
        go(lo, acc + ['not ' + nm])
    go(g, [])
    return ' or '.join('(%s)' % o for o in out) + (' or ...' if len(out) >= maxn else '')
