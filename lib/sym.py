"""Linear reasoning over symbolic index expressions.

Poly: integer polynomials over opaque atoms.  Facts are polynomials known to be
>= 0.  prove(goal, facts) looks for a non-negative combination of the facts
(Farkas) that equals the goal: a bounded, terminating entailment test of the
polyhedral abstract domain, not a path solver.
"""
import math
from fractions import Fraction


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    @staticmethod
    def const(c):
        return Poly({(): c}) if c else Poly()

    @staticmethod
    def atom(a):
        return Poly({(a,): 1})

    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) - self

    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2, key=repr))
                v = t.get(m, 0) + c1 * c2
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t)

    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def is_const(self):
        return all(m == () for m in self.t)

    def cval(self):
        return self.t.get((), 0)

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def coeff(self, atom):
        """self = q*atom + r with r free of atom (None if atom occurs squared)."""
        q, r = {}, {}
        for m, c in self.t.items():
            n = m.count(atom)
            if n == 0:
                r[m] = c
            elif n == 1:
                k = list(m)
                k.remove(atom)
                q[tuple(k)] = c
            else:
                return None
        return Poly(q), Poly(r)

    def subst(self, atom, val):
        out = Poly()
        for m, c in self.t.items():
            p = Poly.const(c)
            for a in m:
                p = p * (val if a == atom else Poly.atom(a))
            out = out + p
        return out

    def divides(self, k):
        return all(c % k == 0 for c in self.t.values())

    def div(self, k):
        return Poly({m: c // k for m, c in self.t.items()})

    def __repr__(self):
        if not self.t:
            return '0'
        ps = []
        for m, c in sorted(self.t.items(), key=repr):
            n = '*'.join(str(a) if not isinstance(a, tuple) else aname(a) for a in m)
            if not m:
                ps.append(str(c))
            elif c == 1:
                ps.append(n)
            else:
                ps.append('%s*%s' % (c, n))
        return ' + '.join(ps)


NAMES = {}


def aname(a):
    return NAMES.get(a) or '<' + ','.join(str(x) for x in a) + '>'


def P(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(x)


EFFORT = [None]     # tableau cells that may still be computed; None for no limit


class Effort(Exception):
    """The search took more work than allowed."""


_LP = []


def _lp_feasible(rows, rhs):
    """Is there x >= 0 with rows*x = rhs?"""
    if not _LP:
        import ctypes
        from build import build_lib
        f = ctypes.CDLL(build_lib('lp')).lp_feasible
        f.argtypes = [ctypes.POINTER(ctypes.c_int64), ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int64)]
        f.restype = ctypes.c_int
        _LP.append((f, ctypes.c_int64))
    f, c64 = _LP[0]
    flat = []
    for r, b in zip(rows, rhs):
        d = 1
        for x in r:
            if not isinstance(x, int):
                d = math.lcm(d, Fraction(x).denominator)
        if not isinstance(b, int):
            d = math.lcm(d, Fraction(b).denominator)
        flat += r + [b] if d == 1 else [int(x * d) for x in r] + [int(b * d)]
    if all(-1 << 62 < x < 1 << 62 for x in flat):
        m, n = len(rows), len(rows[0]) if rows else 0
        work = c64(EFFORT[0] if EFFORT[0] is not None else 1 << 60)
        a = f((c64 * len(flat))(*[int(x) for x in flat]), m, n, work)
        if EFFORT[0] is not None:
            EFFORT[0] = work.value
        if a == -2:
            raise Effort()
        if a >= 0:
            return a == 1
    return _lp_slow(rows, rhs)


def _lp_slow(rows, rhs):
    """Is there x >= 0 with rows*x = rhs?  Phase-1 simplex, Bland's rule, exact."""
    m = len(rows)
    n = len(rows[0]) if rows else 0
    A = []
    for r, b in zip(rows, rhs):
        if b < 0:
            A.append([Fraction(-x) for x in r] + [Fraction(-b)])
        else:
            A.append([Fraction(x) for x in r] + [Fraction(b)])
    # artificial basis
    basis = [n + i for i in range(m)]
    # objective: minimise sum of artificials => reduced costs
    z = [sum(A[i][j] for i in range(m)) for j in range(n + 1)]
    it = 0
    while True:
        it += 1
        if it > 400:
            return False
        e = next((j for j in range(n) if z[j] > 0), None)
        if e is None:
            break
        # ratio test
        best, br = None, None
        for i in range(m):
            if A[i][e] > 0:
                q = A[i][n] / A[i][e]
                if best is None or q < best or (q == best and basis[i] < basis[br]):
                    best, br = q, i
        if br is None:
            break
        if EFFORT[0] is not None:
            EFFORT[0] -= m * n
            if EFFORT[0] < 0:
                raise Effort()
        pv = A[br][e]
        A[br] = [x / pv if x else x for x in A[br]]
        for i in range(m):
            if i != br and A[i][e] != 0:
                f = A[i][e]
                A[i] = [x - f * y if y else x for x, y in zip(A[i], A[br])]
        f = z[e]
        z = [x - f * y if y else x for x, y in zip(z, A[br])]
        basis[br] = e
    return z[n] == 0


def entails(facts, goal):
    """goal >= 0 follows linearly from facts >= 0 (monomials as variables)."""
    goal = P(goal)
    if goal.is_const():
        if goal.cval() >= 0:
            return True
    # relevance closure
    want = set(m for m in goal.t if m)
    fs = [f for f in facts]
    rel, rest = [], list(dict.fromkeys(fs))
    if not want:
        # goal is a negative constant: are the facts contradictory?
        rel, rest = rest, []
        for f in rel:
            want |= set(m for m in f.t if m)
    ch = True
    while ch:
        ch = False
        nr = []
        for f in rest:
            ms = set(m for m in f.t if m)
            if ms & want:
                rel.append(f)
                want |= ms
                ch = True
            else:
                nr.append(f)
        rest = nr
    # facts with constants only that are contradictory prove anything
    for f in rest:
        if f.is_const() and f.cval() < 0:
            return True
    if not rel:
        return goal.is_const() and goal.cval() >= 0
    mons = sorted(want, key=repr)
    idx = {m: i for i, m in enumerate(mons)}
    # unknowns: one lambda per fact, plus slack constant
    n = len(rel) + 1
    rows = [[0] * n for _ in mons] + [[0] * n]
    for j, f in enumerate(rel):
        for m, c in f.t.items():
            if m:
                rows[idx[m]][j] = c
            else:
                rows[-1][j] = c
    rows[-1][n - 1] = 1
    rhs = [goal.t.get(m, 0) for m in mons] + [goal.cval()]
    return _lp_feasible(rows, rhs)


class Facts:
    """Conjunction of facts plus disjunctive atoms (min/max/select) split on demand."""

    def __init__(self, facts=(), splits=()):
        self.f = list(facts)
        self.splits = list(splits)   # each: list of alternatives, each alternative a list of polys >= 0
        self.memo = {}

    def add(self, *ps):
        for p in ps:
            self.f.append(P(p))
        self.memo = {}

    def eq(self, a, b):
        d = P(a) - P(b)
        self.add(d, -d)

    def copy(self):
        return Facts(self.f, self.splits)

    def prove(self, goal, depth=4):
        goal = P(goal)
        k = (goal, depth)
        if k in self.memo:
            return self.memo[k]
        r = self._prove(goal, self.f, self.splits, depth)
        self.memo[k] = r
        return r

    def _prove(self, goal, facts, splits, depth):
        if goal.is_const() and goal.cval() >= 0:
            return True
        if entails(facts, goal):
            return True
        if depth == 0:
            return False
        # only split on disjunctions sharing atoms (transitively) with the goal
        ats = set(goal.atoms())
        ch = True
        while ch:
            ch = False
            for f in facts:
                a = f.atoms()
                if a & ats and not a <= ats:
                    ats |= a
                    ch = True
        for k, alts in enumerate(splits):
            sat = set()
            for alt in alts:
                for p in alt:
                    sat |= p.atoms()
            if not (sat & ats):
                continue
            rest = splits[:k] + splits[k + 1:]
            if all(self._prove(goal, facts + list(alt), rest, depth - 1) for alt in alts):
                return True
            if depth <= 1:
                continue
        return False

    def prove_eq(self, a, b):
        d = P(a) - P(b)
        return self.prove(d) and self.prove(-d)

    def contradictory(self):
        return entails(self.f, Poly.const(-1))
