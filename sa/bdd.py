"""Reduced ordered BDDs: the guard lattice of the value-flow analysis.

A guard says under which outcomes of the program's branch conditions a fact holds.  Atoms are interned terms
(terms.T); variable order is creation order.  Nothing here searches or solves: guards are canonical, so
implication between two facts is a table lookup once the theory facts about the atoms are conjoined.
"""
import sys
import time
sys.setrecursionlimit(100000)

FALSE, TRUE = 0, 1


class Blowup(Exception):
    """the guards of this part of the source are too large to be decided"""


class BDD(object):
    STEP = 1500000           # new nodes per rule
    limit = STEP
    deadline = None

    def budget(self):
        """start of a rule: a fresh allowance of nodes"""
        self.limit = len(self.nodes) + self.STEP

    def check(self, n):
        if n > self.limit:
            raise Blowup('more than %d guard nodes' % self.STEP)
        if self.deadline is not None and time.time() > self.deadline:
            raise Blowup('out of time')

    def __init__(self):
        self.nodes = [None, None]          # id -> (var, lo, hi)
        self.unique = {}
        self.cache = {}
        self.atom_of = []                  # var -> atom term
        self.var_of = {}                   # atom term -> var
        self.meta = []                     # var -> loops at creation
        self._sup = {}
        self._size = {}
        self.rank = []                     # var -> position in the variable order
        self.groups = {}
        self.top = 0

    GAP = 1 << 20

    def var(self, atom, loops=(), group=None):
        v = self.var_of.get(atom)
        if v is None:
            v = len(self.atom_of)
            self.var_of[atom] = v
            # atoms about the same subject are neighbours in the variable order, so that the facts that relate them
            # stay small; a new variable may be put anywhere because no existing node mentions it
            last = self.groups.get(group) if group is not None else None
            if last is None:
                self.top += self.GAP
                r = self.top
            else:
                r = last + 1
            if group is not None:
                self.groups[group] = r
            self.rank.append(r)
            self.atom_of.append(atom)
            self.meta.append(tuple(loops))
        return self.mk(v, FALSE, TRUE)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.unique.get(k)
        if n is None:
            n = len(self.nodes)
            if n > self.limit or not n & 4095:
                self.check(n)
            self.nodes.append(k)
            self.unique[k] = n
        return n

    def ite(self, f, g, h):
        if f == TRUE:
            return g
        if f == FALSE:
            return h
        if g == h:
            return g
        if g == TRUE and h == FALSE:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        nodes = self.nodes
        rank = self.rank
        v = nodes[f][0]
        if g > 1 and rank[nodes[g][0]] < rank[v]:
            v = nodes[g][0]
        if h > 1 and rank[nodes[h][0]] < rank[v]:
            v = nodes[h][0]
        f0, f1 = (nodes[f][1], nodes[f][2]) if nodes[f][0] == v else (f, f)
        if g > 1 and nodes[g][0] == v:
            g0, g1 = nodes[g][1], nodes[g][2]
        else:
            g0 = g1 = g
        if h > 1 and nodes[h][0] == v:
            h0, h1 = nodes[h][1], nodes[h][2]
        else:
            h0 = h1 = h
        r = self.mk(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def AND(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, b, FALSE)

    def OR(self, a, b):
        if a == b:
            return a
        if a > b:
            a, b = b, a
        return self.ite(a, TRUE, b)

    def NOT(self, a):
        return self.ite(a, FALSE, TRUE)

    def all(self, xs):
        r = TRUE
        for x in xs:
            r = self.AND(r, x)
        return r

    def any(self, xs):
        r = FALSE
        for x in xs:
            r = self.OR(r, x)
        return r

    def support(self, f):
        """set of variables f depends on"""
        r = self._sup.get(f)
        if r is not None:
            return r
        if f <= 1:
            r = frozenset()
        else:
            v, lo, hi = self.nodes[f]
            r = self.support(lo) | self.support(hi) | {v}
        self._sup[f] = r
        return r

    def exists(self, f, vs):
        """existential quantification over the variables vs"""
        vs = frozenset(vs)
        memo = {}

        def go(n):
            if n <= 1 or not (self.support(n) & vs):
                return n
            r = memo.get(n)
            if r is None:
                v, lo, hi = self.nodes[n]
                l, h = go(lo), go(hi)
                r = self.OR(l, h) if v in vs else self.mk2(v, l, h)
                memo[n] = r
            return r
        return go(f)

    def mk2(self, v, lo, hi):
        return self.ite(self.mk(v, FALSE, TRUE), hi, lo)

    def assume(self, f, v, val):
        """cofactor of f"""
        memo = {}

        def go(n):
            if n <= 1 or v not in self.support(n):
                return n
            r = memo.get(n)
            if r is None:
                w, lo, hi = self.nodes[n]
                if w == v:
                    r = hi if val else lo
                else:
                    r = self.mk2(w, go(lo), go(hi))
                memo[n] = r
            return r
        return go(f)

    def restrict(self, f, c):
        """a simpler function that agrees with f wherever c holds"""
        memo = {}

        def go(f, c):
            if c == FALSE or f <= 1:
                return f if c != FALSE else FALSE
            if c == TRUE:
                return f
            k = (f, c)
            r = memo.get(k)
            if r is not None:
                return r
            fv, cv = self.nodes[f][0], self.nodes[c][0]
            if self.rank[cv] < self.rank[fv]:
                r = go(f, self.OR(self.nodes[c][1], self.nodes[c][2]))
            else:
                v, lo, hi = self.nodes[f]
                c0, c1 = (self.nodes[c][1], self.nodes[c][2]) if cv == v else (c, c)
                if c0 == FALSE:
                    r = go(hi, c1)
                elif c1 == FALSE:
                    r = go(lo, c0)
                else:
                    r = self.mk2(v, go(lo, c0), go(hi, c1))
            memo[k] = r
            return r
        if c == FALSE or f <= 1 or self.size(c, 400) > 400:
            return f
        return go(f, c)

    def size(self, f, limit):
        """number of nodes of f, counted up to the limit"""
        r = self._size.get(f)
        if r is None:
            seen, todo = set(), [f]
            while todo and len(seen) <= limit:
                n = todo.pop()
                if n <= 1 or n in seen:
                    continue
                seen.add(n)
                todo += self.nodes[n][1:]
            r = self._size[f] = len(seen)
        return r

    def onecube(self, f):
        """one satisfying assignment as [(var, bool)]"""
        out = []
        while f > 1:
            v, lo, hi = self.nodes[f]
            if hi != FALSE:
                out.append((v, True))
                f = hi
            else:
                out.append((v, False))
                f = lo
        return out if f == TRUE else None
