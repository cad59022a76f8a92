"""Decision procedure for identities of rational functions over the reals.
A real term is brought to the normal form num / (b1^e1 ... bn^en): num is a polynomial with rational coefficients, the b's are polynomials
that occurred as denominators. An equation holds if the numerator of the difference is the zero polynomial, provided that every b is known
to be different from zero: it divides the numerator of a term t for which the path condition contains t != 0 (or t < 0, t > 0)."""
import random
from fractions import Fraction
from math import gcd
import z3

BITS = 8
GUARD = 1 << (BITS - 1)


class TooBig(Exception):
    pass


class Rat:
    """polynomials: dict packed exponents -> coefficient (int or Fraction); fractions: (poly, ((base index, exponent), ...))"""

    def __init__(self, limit=200000):
        self.limit = limit
        self.vars = {}      # z3 id -> index
        self.varexpr = []
        self.bases = []     # polynomials, primitive
        self.basekey = {}
        self.cache = {}
        self.keep = []
        self.guards = 0
        self.zero_ites = {}
        self.lower = {}     # pc constraint id -> variables it bounds from below
        self.pos = set()
        self.nonzero = {}   # pc constraint id -> numerator polynomial of a term that is not zero

    # ---- polynomials
    def var(self, e):
        i = e.get_id()
        k = self.vars.get(i)
        if k is None:
            k = self.vars[i] = len(self.varexpr)
            self.varexpr.append(e)
            self.keep.append(e)
            self.guards |= GUARD << (BITS * k)
        return {1 << (BITS * k): 1}

    def padd(self, a, b, s=1):
        if len(a) < len(b) and s == 1: a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + s * c
            if v: r[m] = v
            else: r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) > len(b): a, b = b, a
        if len(a) * len(b) > 40 * self.limit: raise TooBig()
        if len(a) == 1:
            (m, c), = a.items()
            r = {m + n: c * d for n, d in b.items()}
        else:
            r = {}
            for m, c in a.items():
                for n, d in b.items():
                    k = m + n
                    r[k] = r.get(k, 0) + c * d
            r = {m: c for m, c in r.items() if c}
        if len(r) > self.limit: raise TooBig()
        g = self.guards
        for m in r:
            if m & g: raise TooBig()
        return r

    def divides(self, m, n):
        """is the monomial m a divisor of n"""
        g = self.guards
        return ((n | g) - m) & g == g

    def pdiv(self, a, b):
        """a / b if exact, else None"""
        if not a: return {}
        lb = max(b)
        cb = b[lb]
        sb = min(b)
        la = max(a)
        if not self.divides(lb, la) or not self.divides(sb, min(a)): return None
        if len(b) == 1: 
            if any(not self.divides(lb, m) for m in a): return None
            return {m - lb: self.q(c, cb) for m, c in a.items()}
        import heapq
        r = dict(a)
        heap = [-m for m in r]
        heapq.heapify(heap)
        rest = [(m, c) for m, c in b.items() if m != lb]
        out = {}
        steps = 0
        while heap:
            m = -heapq.heappop(heap)
            c = r.pop(m, 0)
            if not c: continue
            if not self.divides(lb, m): return None
            qm = m - lb
            qc = self.q(c, cb)
            out[qm] = qc
            for n, d in rest:
                k = qm + n
                v = r.get(k)
                if v is None:
                    r[k] = -qc * d
                    heapq.heappush(heap, -k)
                else: r[k] = v - qc * d
            steps += len(rest)
            if steps > 60 * self.limit: raise TooBig()
        return out

    @staticmethod
    def q(a, b):
        r = Fraction(a) / Fraction(b)
        return r.numerator if r.denominator == 1 else r

    def primitive(self, p):
        """p = c * q with q primitive, leading coefficient positive"""
        den = 1
        for c in p.values():
            d = Fraction(c).denominator
            den = den * d // gcd(den, d)
        g = 0
        for c in p.values(): g = gcd(g, int(c * den))
        if p[max(p)] < 0: g = -g
        return Fraction(g, den), {m: int(c * den) // g for m, c in p.items()}

    # ---- fractions
    def reduce(self, p, den):
        if not p: return {}, ()
        out = []
        for b, e in den:
            while e:
                d = self.pdiv(p, self.bases[b])
                if d is None: break
                p = d; e -= 1
            if e: out.append((b, e))
        return p, tuple(out)

    def expand(self, p, have, want):
        h = dict(have)
        for b, e in want.items():
            for _ in range(e - h.get(b, 0)): p = self.pmul(p, self.bases[b])
        return p

    def add(self, x, y, s=1):
        (a, da), (b, db) = x, y
        if not b: return x
        if not a: return (b, db) if s == 1 else ({m: -c for m, c in b.items()}, db)
        if da == db:
            if not da: return self.padd(a, b, s), ()
            return self.reduce(self.padd(a, b, s), da)
        want = dict(da)
        for k, e in db: want[k] = max(want.get(k, 0), e)
        return self.reduce(self.padd(self.expand(a, da, want), self.expand(b, db, want), s), tuple(sorted(want.items())))

    def mul(self, x, y):
        (a, da), (b, db) = x, y
        if not a or not b: return {}, ()
        # cancel crosswise first: keeps the products small
        if db: a, db = self.reduce(a, db)
        if da: b, da = self.reduce(b, da)
        d = dict(da)
        for k, e in db: d[k] = d.get(k, 0) + e
        return self.pmul(a, b), tuple(sorted(d.items()))

    def base(self, p):
        """factors of p among the bases (p itself is added): constant and list of (index, exponent)"""
        c, p = self.primitive(p)
        out = []
        if len(p) == 1 and 0 in p: return c, ()
        k = self.basekey.get(frozenset(p.items()))
        if k is not None: return c, ((k, 1),)
        # a monomial factor: the variables
        for i in range(len(self.varexpr)):
            m = 1 << (BITS * i)
            e = 0
            while all(self.divides(m, n) for n in p):
                p = {n - m: v for n, v in p.items()}
                e += 1
            if e: out.append((self.addbase({m: 1}), e))
        for b in range(len(self.bases)):
            if len(self.bases[b]) == 1: continue
            e = 0
            while True:
                d = self.pdiv(p, self.bases[b])
                if d is None: break
                p = d; e += 1
            if e: out.append((b, e))
        c2, p = self.primitive(p)
        c *= c2
        if not (len(p) == 1 and 0 in p): out.append((self.addbase(p), 1))
        d = {}
        for k, e in out: d[k] = d.get(k, 0) + e
        return c, tuple(sorted(d.items()))

    def addbase(self, p):
        key = frozenset(p.items())
        k = self.basekey.get(key)
        if k is None:
            k = self.basekey[key] = len(self.bases)
            self.bases.append(p)
        return k

    def inv(self, x):
        p, den = x
        if not p: raise TooBig()
        c, fs = self.base(p)
        num = {0: self.q(1, c)}
        for b, e in den:
            for _ in range(e): num = self.pmul(num, self.bases[b])
        return self.reduce(num, fs)

    def term(self, e):
        """normal form of a real term"""
        r = self.cache.get(e.get_id())
        if r is not None: return r
        # iterative, terms can be deep
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.cache:
                stack.pop(); continue
            k = x.decl().kind() if z3.is_app(x) else None
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                ch = x.children()
                todo = [c for c in ch if c.get_id() not in self.cache]
                if todo:
                    stack.extend(todo); continue
                v = [self.cache[c.get_id()] for c in ch]
                r = v[0]
                if k == z3.Z3_OP_ADD:
                    for y in v[1:]: r = self.add(r, y)
                elif k == z3.Z3_OP_SUB:
                    for y in v[1:]: r = self.add(r, y, -1)
                elif k == z3.Z3_OP_UMINUS: r = ({m: -c for m, c in r[0].items()}, r[1])
                elif k == z3.Z3_OP_MUL:
                    for y in v[1:]: r = self.mul(r, y)
                else: r = self.mul(v[0], self.inv(v[1]))
            elif k == z3.Z3_OP_POWER and z3.is_int_value(x.arg(1)) and 0 <= x.arg(1).as_long() <= 8:
                if x.arg(0).get_id() not in self.cache:
                    stack.append(x.arg(0)); continue
                r = ({0: 1}, ())
                for _ in range(x.arg(1).as_long()): r = self.mul(r, self.cache[x.arg(0).get_id()])
            elif z3.is_rational_value(x):
                f = x.as_fraction()
                r = ({0: self.q(f, 1)}, ()) if f else ({}, ())
            else: r = (self.var(x), ())
            self.keep.append(x)
            self.cache[i] = r
            stack.pop()
        return self.cache[e.get_id()]

    # ---- what the path condition knows
    def known(self, pc):
        """polynomials that are not zero"""
        out = []
        self.pos = self.positives(pc)
        for c in pc:
            i = c.get_id()
            if i not in self.nonzero:
                self.keep.append(c)
                self.nonzero[i] = self.fact(c)
                if self.transcendental(c): self.nonzero[i] = (self.nonzero[i] or []) + (self.fact(z3.simplify(c)) or [])
            for p, ds in self.nonzero[i] or ():
                # the numerator of n/d is not zero only if d is not zero either
                if all(self.base_known(d, out) for d in ds): out.append(p)
        return out

    def transcendental(self, c):
        """a small term with an application of a function"""
        stack, n, r = [c], 0, False
        while stack:
            x = stack.pop(); n += 1
            if n > 60: return False
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): r = True
                stack.extend(x.children())
        return r

    def positives(self, pc):
        """variables that the path condition bounds from below by a positive number (or by 0, strictly)"""
        out = set()
        for c in pc:
            i = c.get_id()
            if i not in self.lower:
                self.keep.append(c)
                self.lower[i] = [v for v in self.bounds(c, False)]
            out.update(self.lower[i])
        return out

    def bounds(self, c, neg):
        while z3.is_not(c): c = c.arg(0); neg = not neg
        if z3.is_and(c) and not neg or z3.is_or(c) and neg: return [v for d in c.children() for v in self.bounds(d, neg)]
        if not z3.is_app(c) or c.num_args() != 2 or not z3.is_real(c.arg(0)): return []
        k = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE): a, b, k = b, a, {z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_LE: z3.Z3_OP_GE}[k]
        if k not in (z3.Z3_OP_GT, z3.Z3_OP_GE): return []
        if neg: a, b, k = b, a, {z3.Z3_OP_GT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_GT}[k]   # not a > b: b >= a
        if not z3.is_rational_value(b): return []
        f = b.as_fraction()
        if not (f > 0 or f == 0 and k == z3.Z3_OP_GT): return []
        if not z3.is_app(a) or a.decl().kind() not in (z3.Z3_OP_UNINTERPRETED,): return []
        out = []
        for x in (a, z3.simplify(a)):  # terms may have been simplified since
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                self.keep.append(x)
                (m, _), = self.var(x).items()
                out.append(m)
        return out

    def definite(self, p):
        """all monomials have the same sign and one of them is not zero"""
        if len({c > 0 for c in p.values()}) != 1: return False
        strict = False
        for m in p:
            nz, k = True, 0
            while m >> (BITS * k):
                x = (m >> (BITS * k)) & ((1 << BITS) - 1)
                if x and (1 << (BITS * k)) not in self.pos:
                    nz = False
                    if x % 2: return False
                k += 1
            strict = strict or nz
        return strict

    def fact(self, c):
        neg = False
        while z3.is_not(c): c = c.arg(0); neg = not neg
        if z3.is_and(c) and not neg or z3.is_or(c) and neg:
            out = []
            for d in c.children(): out += self.fact(z3.Not(d) if neg else d) or []
            return out
        if z3.is_and(c) and neg and all(z3.is_eq(d) and z3.is_real(d.arg(0)) for d in c.children()):
            # one of the x's is not zero: so is the sum of their squares
            try:
                t, ds = ({}, ()), set()
                for d in c.children():
                    x = self.add(self.term(d.arg(0)), self.term(d.arg(1)), -1)
                    t = self.add(t, self.mul(x, x))
                    ds |= self.dens(d.arg(0)) | self.dens(d.arg(1))
                return [(t[0], ds)] if t[0] else None
            except (TooBig, RecursionError):
                return None
        if not z3.is_app(c) or c.num_args() != 2: return None
        k = c.decl().kind()
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT) and not neg or k in (z3.Z3_OP_LE, z3.Z3_OP_GE) and neg or k == z3.Z3_OP_EQ and neg or k == z3.Z3_OP_DISTINCT and not neg
        if not z3.is_real(c.arg(0)): return None
        try:
            if strict:
                n = self.absolute(c.arg(0), c.arg(1), False) or self.add(self.term(c.arg(0)), self.term(c.arg(1)), -1)
                return [(n[0], self.dens(c.arg(0)) | self.dens(c.arg(1)))] if n[0] else None
        except (TooBig, RecursionError):
            return None
        return None

    def absolute(self, a, b, exact=True):
        """x when the comparison of a and b is one of |x| or the root of x with 0"""
        for p, q in ((a, b), (b, a)):
            if z3.is_rational_value(q) and q.as_fraction() == 0:
                if z3.is_app(p) and p.decl().name() == 'sqrt' and p.num_args() == 1 and (not exact or self.sumsq(p.arg(0))): return self.term(p.arg(0))
                x = self.abs_of(p)
                if x is not None: return self.term(x)
        return None

    def sumsq(self, r):
        """is r syntactically a sum of squares"""
        k = r.decl().kind()
        if k == z3.Z3_OP_ADD: return all(self.sumsq(c) for c in r.children())
        if k == z3.Z3_OP_MUL and r.num_args() == 2: return r.arg(0).get_id() == r.arg(1).get_id()
        return z3.is_rational_value(r) and r.as_fraction() >= 0

    def abs_of(self, p):
        if not (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ITE): return None
        u, v = p.arg(1), p.arg(2)
        n = self.add(self.term(u), self.term(v))
        return u if not n[0] else None

    def base_known(self, b, known):
        p = self.bases[b]
        if self.definite(p): return True
        for k in known:
            if self.pdiv(k, p) is not None: return True
        return False

    def dens(self, e):
        """indices of all bases used as denominators inside e"""
        out, seen, stack = set(), set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or not z3.is_app(x): continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_DIV:
                t = self.term(x.arg(1))
                if not t[0]: raise TooBig()
                for b, _ in self.base(t[0])[1]: out.add(b)
                for b, _ in t[1]: out.add(b)
            stack.extend(x.children())
        return out

    def decide(self, c, pc):
        """True / False if the path condition implies c / not c, None if unknown"""
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if z3.is_not(c):
            r = self.decide(c.arg(0), pc)
            return None if r is None else not r
        if z3.is_and(c) or z3.is_or(c):
            stop = z3.is_or(c)
            rs = []
            for d in c.children():
                r = self.decide(d, pc)
                if r is stop: return stop
                rs.append(r)
            return None if None in rs else not stop
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_IMPLIES:
            return self.decide(z3.Or(z3.Not(c.arg(0)), c.arg(1)), pc)
        if not z3.is_app(c) or c.num_args() != 2 or not z3.is_real(c.arg(0)): return None
        k = c.decl().kind()
        a, b = c.arg(0), c.arg(1)
        x = self.absolute(a, b)
        if k not in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT): return None
        n = x if x is not None else self.add(self.term(a), self.term(b), -1)
        known = None
        ds = self.dens(a) | self.dens(b)
        if ds:
            known = self.known(pc)
            if not all(self.base_known(d, known) for d in ds): return None
        p = n[0]
        if not p:
            return k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE)
        if x is not None and k in (z3.Z3_OP_LT, z3.Z3_OP_GE):
            # |x| < 0 never, |x| >= 0 always (with |x| on the left)
            if self.abs_of(a) is not None and self.nonneg(a): return k == z3.Z3_OP_GE
        if len(p) == 1 and 0 in p and x is None and not n[1]:
            v = p[0]
            return {z3.Z3_OP_EQ: False, z3.Z3_OP_DISTINCT: True, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GE: v >= 0, z3.Z3_OP_GT: v > 0}[k]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if known is None: known = self.known(pc)
            if self.nonzero_poly(p, known): return k == z3.Z3_OP_DISTINCT
        return None

    def nonneg(self, p):
        """p is ite(x >= 0, x, -x)"""
        c, u = p.arg(0), p.arg(1)
        return z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_GE, z3.Z3_OP_GT) and c.arg(0).get_id() == u.get_id()

    def nonzero_poly(self, p, known):
        """p is a product of divisors of polynomials known not to be zero"""
        if self.definite(p): return True
        for k in known:
            if self.pdiv(k, p) is not None: return True
        changed = True
        while changed:
            changed = False
            if len(p) == 1 and 0 in p: return True
            for k in known:
                if len(k) == 1 and 0 in k: continue
                d = self.pdiv(p, k)
                if d is not None:
                    p = d; changed = True
                    break
            else:
                for k in known:
                    if self.pdiv(k, p) is not None: return True
        return False


def sample(pc, neg, tries=12):
    """a model of pc and neg found by evaluating at small random numbers, or None"""
    names = {}
    stack, seen = list(pc) + [neg], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return None
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: names[x.get_id()] = x
        stack.extend(x.children())
    reals = [x for x in names.values() if z3.is_real(x)]
    rnd = random.Random(1)
    for t in range(tries):
        sub = [(x, z3.RealVal(rnd.choice([-3, -2, -1, 1, 2, 3, 4, 5]) if t < 8 else rnd.randint(-40, 40))) for x in reals]
        s = z3.Solver()
        s.set('timeout', 3000)
        for c in list(pc) + [neg]: s.add(z3.simplify(z3.substitute(c, *sub)))
        for x, v in sub: s.add(x == v)
        if s.check() == z3.sat: return s.model()
    return None
