"""Two exact integer semantics for LLVM iN values: bit-vectors, and mathematical integers kept in signed canonical range."""
import z3
from fractions import Fraction

TRUE = z3.BoolVal(True)


def is_sym(v): return isinstance(v, z3.ExprRef)


def sgn(n, w):
    n &= (1 << w) - 1
    return n - (1 << w) if n >> (w - 1) else n


def b_not(c): return (not c) if isinstance(c, bool) else z3.Not(c)


def b_and(a, b):
    if isinstance(a, bool): return b if a else False
    if isinstance(b, bool): return a if b else False
    return z3.And(a, b)


def b_or(a, b):
    if isinstance(a, bool): return True if a else b
    if isinstance(b, bool): return True if b else a
    return z3.Or(a, b)


def tobool(c): return z3.BoolVal(c) if isinstance(c, bool) else c


def real(v):
    if is_sym(v): return v
    if isinstance(v, float): v = Fraction(v)
    return z3.RealVal(str(v)) if isinstance(v, Fraction) else z3.RealVal(v)


def py_binop(op, x, y, w):
    """concrete; signed canonical in and out; None if UB"""
    M = (1 << w) - 1
    ux, uy = x & M, y & M
    if op == 'add': r = x + y
    elif op == 'sub': r = x - y
    elif op == 'mul': r = x * y
    elif op == 'and': r = ux & uy
    elif op == 'or': r = ux | uy
    elif op == 'xor': r = ux ^ uy
    elif op == 'shl':
        if uy >= w: return None
        r = ux << uy
    elif op == 'lshr':
        if uy >= w: return None
        r = ux >> uy
    elif op == 'ashr':
        if uy >= w: return None
        r = x >> uy
    elif op == 'udiv':
        if uy == 0: return None
        r = ux // uy
    elif op == 'urem':
        if uy == 0: return None
        r = ux % uy
    elif op == 'sdiv':
        if y == 0: return None
        q = abs(x) // abs(y)
        r = q if (x < 0) == (y < 0) else -q
    elif op == 'srem':
        if y == 0: return None
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        r = x - q * y
    return sgn(r, w)


class Base:
    def __init__(self, eng):
        self.eng = eng

    # boolean versions of i1 operations
    def bool_bin(self, op, a, b):
        if op in ('and', 'mul'): return b_and(a, b)
        if op == 'or': return b_or(a, b)
        if op in ('xor', 'add', 'sub'):
            if isinstance(a, bool) and isinstance(b, bool): return a != b
            if isinstance(a, bool): return b_not(b) if a else b
            if isinstance(b, bool): return b_not(a) if b else a
            return z3.Xor(a, b)
        raise self.eng.unsup('i1 ' + op)


class BV(Base):
    name = 'bv'

    def sort(self, w): return z3.BitVecSort(w)

    def const(self, n, w): return z3.BitVecVal(n, w)

    def sym(self, v, w):
        if is_sym(v): return v
        return z3.BitVecVal(v, w)

    def fresh(self, name, w): return z3.BitVec(name, w)

    def in_range(self, v, lo, hi, w):
        v = self.sym(v, w)
        return z3.And(v >= z3.BitVecVal(lo, w), v <= z3.BitVecVal(hi, w))

    def bin(self, op, a, b, w, flags):
        if not is_sym(a) and not is_sym(b):
            r = py_binop(op, a, b, w)
            if r is None:
                self.eng.oblige(False, 'no undefined arithmetic (%s)' % op)
                return self.eng.fresh_int(w)
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                ex = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                if ex != r: self.eng.oblige(False, 'no signed overflow')
            return r
        x, y = self.sym(a, w), self.sym(b, w)
        if not is_sym(b):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op in ('mul', 'udiv', 'sdiv') and b == 1: return a
            if op in ('mul', 'and') and b == 0: return 0
        if not is_sym(a):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('mul', 'and', 'shl', 'lshr'): return 0
        if 'nsw' in flags and self.eng.opt('overflow', 1):
            if op == 'add':
                self.eng.oblige(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'no signed overflow')
            elif op == 'sub':
                self.eng.oblige(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'no signed overflow')
            elif op == 'mul':
                self.eng.oblige(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'no signed overflow')
        if op in ('shl', 'lshr', 'ashr'):
            if is_sym(b): self.eng.oblige(z3.ULT(y, z3.BitVecVal(w, w)), 'shift amount below width')
            elif not 0 <= b < w:
                self.eng.oblige(False, 'shift amount below width')
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if is_sym(b): self.eng.oblige(y != 0, 'no division by zero')
            elif b == 0: self.eng.oblige(False, 'no division by zero')
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul': return x * y
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return x << y
        if op == 'lshr': return z3.LShR(x, y)
        if op == 'ashr': return x >> y
        if op == 'udiv': return z3.UDiv(x, y)
        if op == 'urem': return z3.URem(x, y)
        if op == 'sdiv': return x / y
        if op == 'srem': return z3.SRem(x, y)
        raise self.eng.unsup(op)

    def cmp(self, pred, a, b, w):
        if not is_sym(a) and not is_sym(b):
            M = (1 << w) - 1
            if pred[0] == 'u': a &= M; b &= M
            p = pred[1:] if pred[0] in 'us' else pred
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        x, y = self.sym(a, w), self.sym(b, w)
        if pred == 'eq': return x == y
        if pred == 'ne': return x != y
        if pred == 'slt': return x < y
        if pred == 'sle': return x <= y
        if pred == 'sgt': return x > y
        if pred == 'sge': return x >= y
        if pred == 'ult': return z3.ULT(x, y)
        if pred == 'ule': return z3.ULE(x, y)
        if pred == 'ugt': return z3.UGT(x, y)
        if pred == 'uge': return z3.UGE(x, y)

    def zext(self, v, w, w2):
        if not is_sym(v): return sgn(v & ((1 << w) - 1), w2)
        return z3.ZeroExt(w2 - w, v)

    def sext(self, v, w, w2):
        if not is_sym(v): return v
        return z3.SignExt(w2 - w, v)

    def trunc(self, v, w, w2):
        if not is_sym(v): return sgn(v, w2)
        return z3.Extract(w2 - 1, 0, v)

    def frombool(self, c, w):
        if isinstance(c, bool): return int(c) if w > 1 else c
        return z3.If(c, z3.BitVecVal(1, w), z3.BitVecVal(0, w))

    def tobool1(self, v, w):  # trunc to i1
        if not is_sym(v): return bool(v & 1)
        return z3.Extract(0, 0, v) == 1

    def to_real(self, v, w, signed):
        if not is_sym(v): return Fraction(v if signed else v & ((1 << w) - 1))
        return z3.ToReal(z3.BV2Int(v, signed))

    def from_real(self, v, w, signed):
        t = trunc_real(v)
        if not is_sym(t): return sgn(t, w)
        return z3.Int2BV(t, w)

    def to_int(self, v, w, signed=True):
        if not is_sym(v): return v
        return z3.BV2Int(v, signed)

    def concat(self, parts):  # list of (val, nbytes) little endian -> value
        if all(not is_sym(v) for v, n in parts):
            r = 0; sh = 0
            for v, n in parts:
                r |= (v & ((1 << 8 * n) - 1)) << sh
                sh += 8 * n
            return sgn(r, sh)
        xs = [self.sym(v, 8 * n) for v, n in parts]
        return z3.Concat(*xs[::-1])

    def extract(self, v, w, off, n):  # n bytes at byte off of a w-bit value
        if not is_sym(v): return sgn(v >> (8 * off), 8 * n)
        return z3.Extract(8 * (off + n) - 1, 8 * off, v)


class INT(Base):
    name = 'int'

    def __init__(self, eng):
        super().__init__(eng)
        self.bounds = {}  # ast id -> (lo,hi) ; expr kept alive in self.keep
        self.keep = []

    def sort(self, w): return z3.IntSort()

    def const(self, n, w): return z3.IntVal(n)

    def sym(self, v, w):
        if is_sym(v): return v
        return z3.IntVal(v)

    def fresh(self, name, w):
        v = z3.Int(name)
        self.note(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        self.eng.assume_quiet(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
        return v

    def note(self, v, lo, hi):
        i = v.get_id()
        if i in self.bounds:
            a, b = self.bounds[i]
            lo = max(lo, a); hi = min(hi, b)
        self.bounds[i] = (lo, hi)
        self.keep.append(v)

    def iv(self, e):
        """interval or None endpoints"""
        if not is_sym(e): return (e, e)
        i = e.get_id()
        if i in self.bounds: return self.bounds[i]
        r = self._iv(e)
        self.bounds[i] = r
        self.keep.append(e)
        return r

    def _iv(self, e):
        N = (None, None)
        if z3.is_int_value(e):
            v = e.as_long()
            return (v, v)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            lo = hi = 0
            for c in ch:
                l, h = self.iv(c)
                lo = None if lo is None or l is None else lo + l
                hi = None if hi is None or h is None else hi + h
            return (lo, hi)
        if k == z3.Z3_OP_SUB:
            lo, hi = self.iv(ch[0])
            for c in ch[1:]:
                l, h = self.iv(c)
                lo = None if lo is None or h is None else lo - h
                hi = None if hi is None or l is None else hi - l
            return (lo, hi)
        if k == z3.Z3_OP_UMINUS:
            l, h = self.iv(ch[0])
            return (None if h is None else -h, None if l is None else -l)
        if k == z3.Z3_OP_MUL:
            lo, hi = 1, 1
            for c in ch:
                l, h = self.iv(c)
                if None in (l, h, lo, hi): return N
                ps = [lo * l, lo * h, hi * l, hi * h]
                lo, hi = min(ps), max(ps)
            return (lo, hi)
        if k == z3.Z3_OP_ITE:
            a, b = self.iv(ch[1]), self.iv(ch[2])
            return (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
        if k == z3.Z3_OP_MOD and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
            l, h = self.iv(ch[0])
            m = ch[1].as_long()
            if l is not None and h is not None and 0 <= l and h < m: return (l, h)
            return (0, m - 1)
        if k in (z3.Z3_OP_IDIV, z3.Z3_OP_DIV):
            l, h = self.iv(ch[0])
            l2, h2 = self.iv(ch[1])
            if l is not None and h is not None and l2 is not None and l2 > 0:
                c = [l // l2, h // l2] + ([l // h2, h // h2] if h2 is not None else [0 if l >= 0 else -1, 0])
                return (min(c), max(c))
            return N
        return N

    def fits(self, r, w):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if not is_sym(r): return lo <= r <= hi
        l, h = self.iv(r)
        if l is not None and h is not None and l >= lo and h <= hi: return True
        return self.eng.quick_prove(z3.And(r >= lo, r <= hi))

    def wrap(self, r, w):
        if not is_sym(r): return sgn(r, w)
        if self.fits(r, w): return r
        H = 1 << (w - 1)
        m = 1 << w
        l, h = self.iv(r)
        if l is not None and h is not None and l >= -m - H and h < m + H:
            q = z3.If(r >= H, r - m, z3.If(r < -H, r + m, r))
        else:
            q = (r + H) % m - H
        self.note(q, -H, H - 1)
        return q

    def unsigned(self, v, w):
        if not is_sym(v): return v & ((1 << w) - 1)
        l, h = self.iv(v)
        if l is not None and l >= 0: return v
        if self.eng.quick_prove(v >= 0): return v
        q = z3.If(v < 0, v + (1 << w), v)
        self.note(q, 0, (1 << w) - 1)
        return q

    def in_range(self, v, lo, hi, w):
        return z3.And(v >= lo, v <= hi)

    def bin(self, op, a, b, w, flags):
        e = self.eng
        if not is_sym(a) and not is_sym(b):
            r = py_binop(op, a, b, w)
            if r is None:
                e.oblige(False, 'no undefined arithmetic (%s)' % op)
                return e.fresh_int(w)
            if 'nsw' in flags and op in ('add', 'sub', 'mul'):
                ex = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
                if ex != r: e.oblige(False, 'no signed overflow')
            return r
        if op in ('add', 'sub', 'mul') or (op == 'or' and 'disjoint' in flags):
            x, y = self.sym(a, w), self.sym(b, w)
            if op == 'sub': r = x - y
            elif op == 'mul':
                if a == 0 and not is_sym(a) or b == 0 and not is_sym(b): return 0
                r = x * y
            else: r = x + y
            if not is_sym(b) and b == 0 and op != 'mul': return a
            if not is_sym(a) and a == 0 and op == 'add': return b
            r = z3.simplify(r)
            if z3.is_int_value(r): r = r.as_long()
            if 'nsw' in flags:
                l, h = self.iv(r)
                if not (l is not None and h is not None and l >= -(1 << (w - 1)) and h < (1 << (w - 1))):
                    e.oblige(z3.And(r >= -(1 << (w - 1)), r < (1 << (w - 1))), 'no signed overflow')
                return r
            return self.wrap(r, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if is_sym(b): e.oblige(b != 0, 'no division by zero')
            elif b == 0:
                e.oblige(False, 'no division by zero')
                return e.fresh_int(w)
            if op[0] == 'u':
                x, y = self.unsigned(a, w), self.unsigned(b, w)
                if not is_sym(b) and b == 1: return a if op == 'udiv' else 0
                r = self.sym(x, w) / self.sym(y, w) if op == 'udiv' else self.sym(x, w) % self.sym(y, w)
                self.div_facts(x, y, w)
                return self.wrap(r, w)
            x, y = self.sym(a, w), self.sym(b, w)
            if not is_sym(b) and b == 1: return a if op == 'sdiv' else 0
            xl, _ = self.iv(a)
            yl, _ = self.iv(b)
            xpos = (xl is not None and xl >= 0) or e.quick_prove(x >= 0)
            ypos = (yl is not None and yl > 0) or e.quick_prove(y > 0)
            if xpos and ypos:
                self.div_facts(x, y, w)
                return x / y if op == 'sdiv' else x % y
            ax = x if xpos else z3.If(x >= 0, x, -x)
            ay = y if ypos else z3.If(y >= 0, y, -y)
            self.div_facts(ax, ay, w)
            if op == 'sdiv':
                q = ax / ay
                r = z3.If(z3.And(x < 0, True) if ypos else ((x >= 0) != (y >= 0)), -q, q)
                e.oblige(z3.Not(z3.And(x == -(1 << (w - 1)), y == -1)), 'no signed overflow')
            else:
                q = ax % ay
                r = z3.If(x >= 0, q, -q)
            self.note(r, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return r
        if op == 'shl' and not is_sym(b):
            if not 0 <= b < w:
                e.oblige(False, 'shift amount below width'); return e.fresh_int(w)
            return self.wrap(z3.simplify(a * (1 << b)), w)
        if op == 'shl' and not is_sym(a) and is_sym(b):
            e.oblige(z3.And(b >= 0, b < w), 'shift amount below width')
            r = z3.IntVal(sgn(a << (w - 1), w))
            for i in range(w - 2, -1, -1): r = z3.If(b == i, z3.IntVal(sgn(a << i, w)), r)
            self.note(r, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return r
        if op in ('lshr', 'ashr') and not is_sym(b):
            if not 0 <= b < w:
                e.oblige(False, 'shift amount below width'); return e.fresh_int(w)
            if op == 'lshr': a = self.unsigned(a, w)
            r = self.sym(a, w) / z3.IntVal(1 << b)
            return r
        if op in ('and', 'or', 'xor'):
            if is_sym(b) and not is_sym(a): a, b = b, a
            if not is_sym(b):
                ub = b & ((1 << w) - 1)
                if op == 'and':
                    if b == 0: return 0
                    if b == -1: return a
                    if ub & (ub + 1) == 0: return self.sym(a, w) % z3.IntVal(ub + 1)
                    low = (-b) if b < 0 else 0
                    if b < 0 and low & (low - 1) == 0: return self.sym(a, w) - self.sym(a, w) % z3.IntVal(low)
                    if ub == 1 << (w - 1): return z3.If(a < 0, z3.IntVal(b), z3.IntVal(0))
                if op == 'xor':
                    if b == -1: return -self.sym(a, w) - 1
                    if b == 0: return a
                    if b == 1: return z3.If(self.sym(a, w) % 2 == 0, a + 1, a - 1)
                if op == 'or':
                    if b == 0: return a
                    if b == -1: return -1
                    if ub & (ub + 1) == 0: return a - self.sym(a, w) % z3.IntVal(ub + 1) + ub
            # uninterpreted with exact bit semantics through int<->bv
            x, y = z3.Int2BV(self.sym(a, w), w), z3.Int2BV(self.sym(b, w), w)
            r = {'and': x & y, 'or': x | y, 'xor': x ^ y}[op]
            q = z3.BV2Int(r, True)
            self.note(q, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            return q
        x, y = z3.Int2BV(self.sym(a, w), w), z3.Int2BV(self.sym(b, w), w)
        e.oblige(z3.And(self.sym(b, w) >= 0, self.sym(b, w) < w), 'shift amount below width')
        r = {'shl': x << y, 'lshr': z3.LShR(x, y), 'ashr': x >> y}[op]
        q = z3.BV2Int(r, True)
        self.note(q, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return q

    def div_facts(self, x, y, w):
        """instances of the Euclidean division theorem, to help the solver with symbolic divisors (both non-negative, y != 0)"""
        if not is_sym(y): return
        q, r = self.sym(x, w) / y, self.sym(x, w) % y
        self.eng.lemma(z3.Implies(z3.And(self.sym(x, w) >= 0, y > 0), z3.And(self.sym(x, w) == q * y + r, r >= 0, r < y, q >= 0, q <= self.sym(x, w))))

    def cmp(self, pred, a, b, w):
        if not is_sym(a) and not is_sym(b): return BV.cmp(self, pred, a, b, w)
        if pred[0] == 'u':
            if not (self.eng.st.opts.get('nn') or False):
                a, b = self.unsigned(a, w), self.unsigned(b, w)
            pred = 's' + pred[1:]
        x, y = self.sym(a, w), self.sym(b, w)
        if pred == 'eq': return x == y
        if pred == 'ne': return x != y
        l1, h1 = self.iv(a); l2, h2 = self.iv(b)
        if pred == 'slt':
            if h1 is not None and l2 is not None and h1 < l2: return True
            if l1 is not None and h2 is not None and l1 >= h2: return False
            return x < y
        if pred == 'sle':
            if h1 is not None and l2 is not None and h1 <= l2: return True
            return x <= y
        if pred == 'sgt':
            if l1 is not None and h2 is not None and l1 > h2: return True
            if h1 is not None and l2 is not None and h1 <= l2: return False
            return x > y
        if pred == 'sge':
            if l1 is not None and h2 is not None and l1 >= h2: return True
            return x >= y

    def zext(self, v, w, w2):
        if not is_sym(v): return sgn(v & ((1 << w) - 1), w2)
        return self.unsigned(v, w)

    def sext(self, v, w, w2): return v

    def trunc(self, v, w, w2):
        if not is_sym(v): return sgn(v, w2)
        return self.wrap(v, w2)

    def frombool(self, c, w):
        if isinstance(c, bool): return int(c)
        r = z3.If(c, z3.IntVal(1), z3.IntVal(0))
        return r

    def tobool1(self, v, w):
        if not is_sym(v): return bool(v & 1)
        k = v.decl().kind()
        if k == z3.Z3_OP_ITE and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)):
            a, b = v.arg(1).as_long() & 1, v.arg(2).as_long() & 1
            if a and not b: return v.arg(0)
            if b and not a: return z3.Not(v.arg(0))
            return bool(a)
        return v % 2 != 0

    def to_real(self, v, w, signed):
        if not is_sym(v): return Fraction(v if signed else v & ((1 << w) - 1))
        if not signed: v = self.unsigned(v, w)
        return z3.ToReal(v)

    def from_real(self, v, w, signed):
        t = trunc_real(v)
        if not is_sym(t): return sgn(t, w)
        if signed:
            self.eng.oblige(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))), 'float to integer conversion in range')
            return t
        self.eng.oblige(z3.And(t >= 0, t < (1 << w)), 'float to integer conversion in range')
        return self.wrap(t, w)

    def to_int(self, v, w, signed=True):
        if signed: return v
        return self.unsigned(v, w)

    def concat(self, parts):
        if all(not is_sym(v) for v, n in parts): return BV.concat(self, parts)
        r = 0; sh = 0
        for i, (v, n) in enumerate(parts):
            u = self.unsigned(v, 8 * n) if i < len(parts) - 1 else v
            r = r + u * (1 << sh)
            sh += 8 * n
        r = z3.simplify(r)
        self.note(r, -(1 << (sh - 1)), (1 << (sh - 1)) - 1)
        return r

    def extract(self, v, w, off, n):
        if not is_sym(v): return sgn(v >> (8 * off), 8 * n)
        if off: v = v / z3.IntVal(1 << (8 * off))
        return self.wrap(v, 8 * n) if 8 * (off + n) < w or off == 0 else v


def trunc_real(v):
    if not is_sym(v):
        f = Fraction(v)
        return int(f)
    if z3.is_app_of(v, z3.Z3_OP_TO_REAL): return v.arg(0)
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def floor_real(v):
    if not is_sym(v):
        import math
        return Fraction(math.floor(Fraction(v)))
    return z3.ToReal(z3.ToInt(v))
