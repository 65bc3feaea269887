"""Language equivalence of regular expressions (parsed, never matched against sample strings)."""
import re._parser as sp
from re._constants import (LITERAL, NOT_LITERAL, IN, ANY, MAX_REPEAT, MIN_REPEAT, SUBPATTERN, BRANCH, AT, RANGE, NEGATE,
                           CATEGORY, MAXREPEAT, AT_BEGINNING, AT_END, AT_BEGINNING_STRING, AT_END_STRING,
                           CATEGORY_DIGIT, CATEGORY_SPACE, CATEGORY_WORD)


class Unsupported(Exception):
    pass


OTHER = '\u4e2d'      # stands for every character not named in the patterns


def cat(c):
    if c == CATEGORY_DIGIT:
        return set('0123456789')
    if c == CATEGORY_SPACE:
        return set(' \t\n\r\f\v')
    raise Unsupported(str(c))


def inset(items, sigma):
    neg, out = False, set()
    for op, av in items:
        if op is NEGATE:
            neg = True
        elif op is LITERAL:
            out.add(chr(av))
        elif op is RANGE:
            out |= {chr(x) for x in range(av[0], av[1] + 1)}
        elif op is CATEGORY:
            out |= cat(av)
        else:
            raise Unsupported(str(op))
    return (sigma - out) if neg else out


class NFA(object):
    def __init__(self, sigma):
        self.sigma, self.n, self.eps, self.tr = sigma, 0, {}, {}

    def st(self):
        self.n += 1
        return self.n

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, cs, b):
        for c in cs:
            self.tr.setdefault((a, c), set()).add(b)

    def seq(self, items, a):
        for it in items:
            a = self.node(it, a)
        return a

    def node(self, it, a):
        op, av = it
        if op is LITERAL:
            b = self.st(); self.t(a, {chr(av)}, b); return b
        if op is NOT_LITERAL:
            b = self.st(); self.t(a, self.sigma - {chr(av)}, b); return b
        if op is ANY:
            b = self.st(); self.t(a, self.sigma - {'\n'}, b); return b
        if op is IN:
            b = self.st(); self.t(a, inset(av, self.sigma) & self.sigma, b); return b
        if op is SUBPATTERN:
            return self.seq(av[-1], a)
        if op is BRANCH:
            b = self.st()
            for alt in av[1]:
                s = self.st(); self.e(a, s); self.e(self.seq(alt, s), b)
            return b
        if op in (MAX_REPEAT, MIN_REPEAT):
            lo, hi, sub = av
            if lo > 50 or hi is not MAXREPEAT and hi > 50:
                raise Unsupported('large repeat')
            for _ in range(lo):
                a = self.seq(sub, a)
            if hi is MAXREPEAT:
                s = self.st(); self.e(a, s)
                z = self.seq(sub, s); self.e(z, s)
                return s
            end = self.st(); self.e(a, end)
            for _ in range(hi - lo):
                a = self.seq(sub, a); self.e(a, end)
            return end
        if op is AT:
            return a
        raise Unsupported(str(op))

    def close(self, ss):
        todo, out = list(ss), set(ss)
        while todo:
            for b in self.eps.get(todo.pop(), ()):
                if b not in out:
                    out.add(b); todo.append(b)
        return frozenset(out)


def anchored(items):
    """(starts anchored, ends anchored); anchors elsewhere are not supported"""
    l = list(items)
    s = bool(l) and l[0][0] is AT and l[0][1] in (AT_BEGINNING, AT_BEGINNING_STRING)
    e = bool(l) and l[-1][0] is AT and l[-1][1] in (AT_END, AT_END_STRING)
    return s, e


def alphabet(items, out):
    for op, av in items:
        if op in (LITERAL, NOT_LITERAL):
            out.add(chr(av))
        elif op is IN:
            for o, v in av:
                if o is LITERAL:
                    out.add(chr(v))
                elif o is RANGE:
                    if v[1] - v[0] > 200:
                        raise Unsupported('range')
                    out |= {chr(x) for x in range(v[0], v[1] + 1)}
                elif o is CATEGORY:
                    out |= cat(v)
        elif op is SUBPATTERN:
            alphabet(av[-1], out)
        elif op is BRANCH:
            for alt in av[1]:
                alphabet(alt, out)
        elif op in (MAX_REPEAT, MIN_REPEAT):
            alphabet(av[2], out)


def language(pattern, mode, sigma):
    """automaton of the strings accepted by re.<mode>(pattern, s)"""
    p = sp.parse(pattern)
    s, e = anchored(p)
    n = NFA(sigma)
    a = n.st()
    start = a
    if mode == 'search' and not s:
        n.t(a, sigma, a)
    z = n.seq(list(p), a)
    fin = n.st(); n.e(z, fin)
    if mode != 'fullmatch' and not e:
        n.t(fin, sigma, fin)
    return n, start, fin


def sigma_of(*patterns):
    out = {OTHER}
    for p in patterns:
        alphabet(list(sp.parse(p)), out)
    return out


def compare(p1, m1, p2, m2):
    """'=' equal languages, '<' p1 accepts less, '>' p1 accepts more, '!' both differ; with a witness"""
    sg = sigma_of(p1, p2)
    A, sa, fa = language(p1, m1, sg)
    Bn, sb, fb = language(p2, m2, sg)
    x = (A.close({sa}), Bn.close({sb}))
    seen, todo = {x: ''}, [x]
    less = more = None
    while todo:
        x = todo.pop(0)
        w = seen[x]
        ina, inb = fa in x[0], fb in x[1]
        if ina and not inb and more is None:
            more = w
        if inb and not ina and less is None:
            less = w
        for c in sg:
            y = (A.close({q for p in x[0] for q in A.tr.get((p, c), ())}), Bn.close({q for p in x[1] for q in Bn.tr.get((p, c), ())}))
            if y not in seen and (y[0] or y[1]):
                if len(seen) > 20000:
                    raise Unsupported('too many states')
                seen[y] = w + c; todo.append(y)
    if less is None and more is None:
        return '=', None
    if less is not None and more is not None:
        return '!', less
    return ('<', less) if less is not None else ('>', more)
