"""Decision procedure for identities over bits: boolean terms as polynomials over GF(2) (algebraic normal form).
A formula is valid if its normal form is the constant 1; anything outside and/or/xor/not/shift/if on bits is an opaque atom."""
import z3

ONE = frozenset([frozenset()])
ZERO = frozenset()


class TooBig(Exception):
    pass


class ANF:
    def __init__(self, limit=60000):
        self.limit = limit
        self.cb = {}
        self.cv = {}
        self.keep = []
        self.work = 0

    def mul(self, a, b):
        if not a or not b: return ZERO
        if a == ONE: return b
        if b == ONE: return a
        if a == b: return a
        if len(a) * len(b) > 4 * self.limit: raise TooBig()
        self.work += len(a) * len(b)
        if self.work > 6000000: raise TooBig()
        r = set()
        for x in a:
            for y in b:
                r ^= {x | y}
        if len(r) > self.limit: raise TooBig()
        return frozenset(r)

    def add(self, a, b):
        return a ^ b

    def inv(self, a): return a ^ ONE

    def ite(self, c, a, b):
        if a == b: return a
        return self.mul(c, a ^ b) ^ b

    def atom(self, k): return frozenset([frozenset([k])])

    def bool_(self, e):
        i = e.get_id()
        r = self.cb.get(i)
        if r is None:
            self.keep.append(e)
            r = self.cb[i] = self.bool__(e)
        return r

    def bool__(self, e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TRUE: return ONE
        if k == z3.Z3_OP_FALSE: return ZERO
        if k == z3.Z3_OP_NOT: return self.inv(self.bool_(ch[0]))
        if k == z3.Z3_OP_AND:
            r = ONE
            for c in ch: r = self.mul(r, self.bool_(c))
            return r
        if k == z3.Z3_OP_OR:
            r = ONE
            for c in ch: r = self.mul(r, self.inv(self.bool_(c)))
            return self.inv(r)
        if k == z3.Z3_OP_XOR:
            r = ZERO
            for c in ch: r = r ^ self.bool_(c)
            return r
        if k == z3.Z3_OP_IMPLIES: return self.inv(self.mul(self.bool_(ch[0]), self.inv(self.bool_(ch[1]))))
        if k == z3.Z3_OP_ITE: return self.ite(self.bool_(ch[0]), self.bool_(ch[1]), self.bool_(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IFF) and len(ch) == 2:
            if z3.is_bool(ch[0]): r = self.inv(self.bool_(ch[0]) ^ self.bool_(ch[1]))
            elif z3.is_bv(ch[0]):
                r = ONE
                ds = [self.inv(a ^ b) for a, b in zip(self.bits(ch[0]), self.bits(ch[1]))]
                if any(not d for d in ds): r = ZERO
                else:
                    for d in ds: r = self.mul(r, d)
            else: return self.atom(('b', e.get_id()))
            return self.inv(r) if k == z3.Z3_OP_DISTINCT else r
        return self.atom(('b', e.get_id()))

    def bits(self, e):
        i = e.get_id()
        r = self.cv.get(i)
        if r is None:
            self.keep.append(e)
            r = self.cv[i] = self.bits_(e)
        return r

    def bits_(self, e):
        w = e.size()
        if z3.is_bv_value(e):
            v = e.as_long()
            return [ONE if v >> i & 1 else ZERO for i in range(w)]
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_BNOT: return [self.inv(a) for a in self.bits(ch[0])]
        if k == z3.Z3_OP_BXOR:
            r = self.bits(ch[0])
            for c in ch[1:]: r = [a ^ b for a, b in zip(r, self.bits(c))]
            return r
        if k == z3.Z3_OP_BAND:
            r = self.bits(ch[0])
            for c in ch[1:]: r = [self.mul(a, b) for a, b in zip(r, self.bits(c))]
            return r
        if k == z3.Z3_OP_BOR:
            r = [self.inv(a) for a in self.bits(ch[0])]
            for c in ch[1:]: r = [self.mul(a, self.inv(b)) for a, b in zip(r, self.bits(c))]
            return [self.inv(a) for a in r]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch): r = r + self.bits(c)
            return r
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return self.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_ZERO_EXT: return self.bits(ch[0]) + [ZERO] * e.params()[0]
        if k == z3.Z3_OP_SIGN_EXT:
            b = self.bits(ch[0])
            return b + [b[-1]] * e.params()[0]
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            b = self.bits(ch[0])
            if n >= w: return [ZERO] * w
            return [ZERO] * n + b[:w - n] if k == z3.Z3_OP_BSHL else b[n:] + [ZERO] * n
        if k == z3.Z3_OP_ITE:
            c = self.bool_(ch[0])
            return [self.ite(c, a, b) for a, b in zip(self.bits(ch[1]), self.bits(ch[2]))]
        if k == z3.Z3_OP_BADD and len(ch) == 2 and w <= 8 or k == z3.Z3_OP_BADD and len(ch) == 2 and all(not self.mul(a, b) for a, b in zip(self.bits(ch[0]), self.bits(ch[1]))):
            c = ZERO
            r = []
            for a, b in zip(self.bits(ch[0]), self.bits(ch[1])):
                r.append(a ^ b ^ c)
                c = self.mul(a, b) ^ self.mul(c, a ^ b)
            return r
        return [self.atom((e.get_id(), i)) for i in range(w)]


def prove(goal):
    """True if the goal is valid on its own as an identity over bits"""
    try:
        a = ANF()
        return a.bool_(goal) == ONE
    except (TooBig, RecursionError):
        return False


def abstract(cs, least=12):
    """the constraints with every large parity-like atom (an equation between bit vectors) replaced by a variable standing for its
    normal form, so that atoms with equal or opposite normal forms become the same variable; None if there is no such atom.
    Sound for refutation: the result is implied by the constraints."""
    a = ANF(20000)
    cache, names, hit = {}, {}, [0]

    def var(p):
        neg = frozenset() in p
        q = p ^ ONE if neg else p
        if not q: return z3.BoolVal(neg)
        v = names.get(q)
        if v is None: v = names[q] = z3.Bool('anf!%d' % len(names))
        return z3.Not(v) if neg else v

    def rw(x):
        i = x.get_id()
        if i in cache: return cache[i]
        r = x
        if z3.is_app(x) and x.num_args():
            if x.decl().kind() == z3.Z3_OP_EQ and (z3.is_bv(x.arg(0)) or z3.is_bool(x.arg(0))):
                try:
                    p = a.bool_(x)
                    if len(p) >= least and max(map(len, p)) <= 8:
                        r = var(p); hit[0] += 1
                    elif len(p) == 0 or p == ONE: r = z3.BoolVal(p == ONE)
                except TooBig:
                    pass
            if r is x:
                ch = [rw(c) for c in x.children()]
                if any(c.get_id() != d.get_id() for c, d in zip(ch, x.children())): r = z3.substitute(x, *[(d, c) for c, d in zip(ch, x.children()) if c.get_id() != d.get_id()])
        cache[i] = r
        a.keep.append(x)
        return r
    try:
        out = [rw(c) for c in cs]
    except (TooBig, RecursionError, z3.Z3Exception):
        return None
    return out if hit[0] else None
