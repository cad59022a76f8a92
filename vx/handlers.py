"""Logical meaning of the contract primitives, LLVM intrinsics, and the trusted contracts of functions outside the verifier's reach."""
import re, math
import z3
from fractions import Fraction
from arith import is_sym, b_not, b_and, b_or, tobool, real, floor_real, trunc_real
from engine import (Ptr, FnPtr, NULL, Unsupported, PathDead, Special, Lin, PDiff)


def cstring(e, p):
    if not isinstance(p, Ptr) or p.obj == 0: return '?'
    o = e.st.mem[p.obj]
    out = bytearray()
    i = p.off.c
    while i in o.cells and o.cells[i][0] == 1 and isinstance(o.cells[i][1], int) and o.cells[i][1] != 0:
        out.append(o.cells[i][1] & 255)
        i += 1
    return out.decode('utf8', 'replace')


# ---------------------------------------------------------------- intrinsics
def intrinsic(e, st, fr, ins, name, args):
    n = name[len('@llvm.'):]
    V = lambda i: e.val(fr, args[i][1], args[i][0])
    W = lambda i=0: args[i][0][1]
    A = e.A
    def done(v=None):
        return e.finish_call(st, fr, ins, v)
    if n.startswith(('lifetime', 'dbg', 'assume', 'experimental.noalias', 'donothing', 'invariant', 'prefetch', 'stacksave', 'stackrestore', 'va_', 'pseudoprobe')): return done(NULL if 'stacksave' in n else None)
    if n.startswith(('memcpy', 'memmove')):
        ln = V(2)
        if isinstance(ln, PDiff): ln = e.lin_expr(ln.lin)
        e.memcpy(V(0), V(1), ln)
        return done()
    if n.startswith('memset'):
        ln = V(2)
        if isinstance(ln, PDiff): ln = e.lin_expr(ln.lin)
        e.memset(V(0), V(1), ln)
        return done()
    if n.startswith('expect'): return done(V(0))
    if n.startswith('is.constant'): return done(False)
    if n.startswith('objectsize'): return done(-1)
    if n.startswith('launder') or n.startswith('strip') or n.startswith('ptr.annotation'): return done(V(0))
    if n.startswith('eh.typeid.for'):
        op = args[0][1]
        return done(1 + (hash(op[1]) % 1000003))
    if n.startswith('trap') or n.startswith('ubsantrap'):
        e.oblige(False, 'no trap')
        raise PathDead()
    m = re.match(r'(s|u)(max|min)\.i(\d+)', n)
    if m:
        w = int(m.group(3))
        a, b = e.asint(V(0)), e.asint(V(1))
        c = A.cmp(m.group(1) + ('gt' if m.group(2) == 'max' else 'lt'), a, b, w)
        if isinstance(c, bool): return done(a if c else b)
        return done(z3.If(c, A.sym(a, w), A.sym(b, w)))
    if n.startswith('abs.'):
        w = W()
        a = e.asint(V(0))
        if not is_sym(a): return done(abs(a))
        r = z3.If(A.cmp('slt', a, 0, w), -a, a)
        e.oblige(a != A.sym(-(1 << (w - 1)), w), 'no signed overflow')
        if A.name == 'int': A.note(r, 0, (1 << (w - 1)) - 1)
        return done(r)
    if n.startswith('ctpop'):
        w = W()
        a = V(0)
        if not is_sym(a): return done(bin(a & ((1 << w) - 1)).count('1'))
        if A.name != 'bv': raise Unsupported('ctpop in integer mode')
        r = z3.BitVecVal(0, w)
        for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
        return done(r)
    if n.startswith(('ctlz', 'cttz')):
        w = W()
        a = V(0)
        if not is_sym(a):
            u = a & ((1 << w) - 1)
            if n.startswith('ctlz'): return done(w - u.bit_length())
            return done(w if u == 0 else (u & -u).bit_length() - 1)
        if A.name != 'bv': raise Unsupported('ctlz in integer mode')
        r = z3.BitVecVal(w, w)
        rng = range(w) if n.startswith('ctlz') else range(w - 1, -1, -1)
        for i in rng:
            r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i if n.startswith('ctlz') else i, w), r)
        return done(r)
    if n.startswith(('fshl', 'fshr')):
        w = W()
        a, b, c = V(0), V(1), V(2)
        if is_sym(c): raise Unsupported('funnel shift')
        c %= w
        if n.startswith('fshr'): c = (w - c) % w
        if c == 0: return done(a if n.startswith('fshl') else b)
        return done(A.bin('or', A.bin('shl', a, c, w, ()), A.bin('lshr', b, w - c, w, ()), w, ()))
    m = re.match(r'(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)', n)
    if m:
        w = int(m.group(3))
        a, b = e.asint(V(0)), e.asint(V(1))
        sg = m.group(1) == 's'
        if not is_sym(a) and not is_sym(b):
            M = (1 << w) - 1
            x, y = (a, b) if sg else (a & M, b & M)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
            ok = -(1 << (w - 1)) <= r < (1 << (w - 1)) if sg else 0 <= r <= M
            from arith import sgn
            return done([sgn(r, w), not ok])
        if A.name == 'int':
            x, y = (a, b) if sg else (A.unsigned(a, w), A.unsigned(b, w))
            x, y = A.sym(x, w), A.sym(y, w)
            r = z3.simplify({'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)])
            ov = z3.Or(r < -(1 << (w - 1)), r >= (1 << (w - 1))) if sg else z3.Or(r < 0, r >= (1 << w))
            if e.quick_prove(z3.Not(ov)): return done([r if sg else A.wrap(r, w), False])
            return done([A.wrap(r, w), ov])
        x, y = A.sym(a, w), A.sym(b, w)
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
        f = {'add': lambda: b_and(z3.BVAddNoOverflow(x, y, sg), z3.BVAddNoUnderflow(x, y) if sg else True),
             'sub': lambda: b_and(z3.BVSubNoUnderflow(x, y, sg), z3.BVSubNoOverflow(x, y) if sg else True),
             'mul': lambda: b_and(z3.BVMulNoOverflow(x, y, sg), z3.BVMulNoUnderflow(x, y) if sg else True)}[m.group(2)]()
        return done([r, z3.Not(f)])
    m = re.match(r'(floor|ceil|trunc|fabs|sqrt|rint|nearbyint|round|sin|cos|exp|log|log10|exp2|log2|pow|powi|copysign|maxnum|minnum|fmuladd|fma|maximum|minimum)\.', n)
    if m:
        f = m.group(1)
        a = V(0)
        return done(mathfn(e, f, [V(i) for i in range(len(args))]))
    if n.startswith('threadlocal.address'): return done(V(0))
    if n.startswith('load.relative'): raise Unsupported(name)
    if n.startswith('usub.sat') or n.startswith('uadd.sat'):
        w = W(); a, b = e.asint(V(0)), e.asint(V(1))
        if n.startswith('usub'):
            c = A.cmp('ult', a, b, w)
            d = A.bin('sub', a, b, w, ())
            return done((0 if c else d) if isinstance(c, bool) else z3.If(c, A.sym(0, w), A.sym(d, w)))
    if n.startswith('is.fpclass'):
        m = int(e.asint(V(1))) & 0x1f8  # doubles are real numbers: neither infinite nor NaN
        if m in (0, 0x1f8): return done(bool(m) if A.name == 'int' else bool(m))
        if m in (0x108, 0x60):  # normal / zero; exact arithmetic has no subnormal numbers
            x = V(0)
            if isinstance(x, Special): raise Unsupported('class of a non-finite value')
            z = x == 0 if not is_sym(x) else x == z3.RealVal(0)
            return done(z if m == 0x60 else b_not(z))
        raise Unsupported('intrinsic ' + name)
    raise Unsupported('intrinsic ' + name)


def ufn(e, name, ar, *a):
    f = z3.Function(name, *([z3.RealSort()] * ar + [z3.RealSort()]))
    return f(*[real(x) for x in a])


def square_of(x):
    s = z3.simplify(x)
    if z3.is_mul(s) and s.num_args() == 2 and s.arg(0).eq(s.arg(1)): return s.arg(0)
    if z3.is_app_of(s, z3.Z3_OP_POWER) and z3.is_rational_value(s.arg(1)) and s.arg(1).as_fraction() == 2: return s.arg(0)
    return None


def mathfn(e, f, a):
    x = a[0]
    if isinstance(x, Special):
        if f == 'fabs': return Special(abs(x.f))
        raise Unsupported('%s of a non-finite value' % f)
    if f == 'fabs':
        if not is_sym(x): return abs(x)
        return z3.If(x >= 0, x, -x)
    if f == 'floor': return floor_real(x)
    if f == 'ceil':
        return -floor_real(-x)
    if f == 'trunc':
        t = trunc_real(x)
        return Fraction(t) if not is_sym(t) else z3.ToReal(t)
    if f == 'round':
        # half away from zero
        if not is_sym(x): x = real(x)
        return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + z3.RealVal('1/2'))), -z3.ToReal(z3.ToInt(-x + z3.RealVal('1/2'))))
    if f in ('fma', 'fmuladd'):
        return e.farith('fadd', e.farith('fmul', a[0], a[1]), a[2])
    if f == 'copysign':
        s = e.fcompare('olt', a[1], Fraction(0))
        m = mathfn(e, 'fabs', [x])
        if isinstance(s, bool): return -m if s else m
        return z3.If(s, -real(m), real(m))
    if f in ('maxnum', 'minnum', 'maximum', 'minimum'):
        c = e.fcompare('ogt' if f.startswith('max') else 'olt', a[0], a[1])
        if isinstance(c, bool): return a[0] if c else a[1]
        return z3.If(c, real(a[0]), real(a[1]))
    if f == 'sqrt':
        if not is_sym(x):
            if x == 0 or x == 1: return x
            if x > 0:
                q = Fraction(x)
                n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if n * n == q.numerator and d * d == q.denominator: return Fraction(n, d)
        else:
            # the root of a square whose sign is known
            y = square_of(x)
            if y is not None and e.st is not None:
                if not e.feasible(e.st, y < 0): return y
                if not e.feasible(e.st, y > 0): return e.farith('fsub', Fraction(0), y)
        r = ufn(e, 'sqrt', 1, x)
        e.lemma(z3.Implies(real(x) >= 0, r >= 0))
        c = z3.Implies(real(x) >= 0, r * r == real(x))
        e.lemma(c)
        e.lazy.add(c.get_id()); e.keep.append(c)
        return r
    if f == 'powi':
        n = e.asint(a[1])
        if not is_sym(n) and 0 <= n <= 8:
            r = Fraction(1)
            for _ in range(n): r = e.farith('fmul', r, x)
            return r
        raise Unsupported('powi')
    if f == 'pow':
        y = a[1]
        if not is_sym(y) and y == int(y) and 0 <= y <= 8:
            r = Fraction(1)
            for _ in range(int(y)): r = e.farith('fmul', r, x)
            return r
        return ufn(e, 'pow', 2, x, y)
    r = ufn(e, f, 1, x)
    if f == 'exp': e.lemma(r > 0)
    if f in ('sin', 'cos'): e.lemma(z3.And(r >= -1, r <= 1))
    if f == 'exp' and not is_sym(x) and x == 0: return Fraction(1)
    return r


# ---------------------------------------------------------------- registry
class Handlers:
    def __init__(self):
        self.exact = {}
        self.rx = []

    def lookup(self, mangled, dem):
        if mangled in self.exact: return self.exact[mangled]
        for r, h in self.rx:
            if r.search(dem): return h
        return None

    def strip_regexes(self):
        return [r for r, h in self.rx if not getattr(h, 'keep_body', False)]

    def on(self, rx):
        def d(f):
            self.rx.append((re.compile(rx), f))
            return f
        return d

    def ex(self, *names):
        def d(f):
            for n in names: self.exact[n] = f
            return f
        return d


H = Handlers()


def uniq(st, name):
    k = st.names.get(name, 0)
    st.names[name] = k + 1
    return name if k == 0 else '%s#%d' % (name, k)


@H.ex('vx_any_i64')
def _any_i64(e, st, fr, ins, name, a):
    n = uniq(st, cstring(e, a[0]))
    lo, hi = a[1], a[2]
    if not is_sym(lo) and not is_sym(hi) and lo == hi:
        st.inputs.append((n, 'const', lo))
        return lo
    if e.A.name == 'bv':
        v = z3.BitVec(n, 64)
        st.pc.append(z3.And(v >= e.A.sym(lo, 64), v <= e.A.sym(hi, 64)))
    else:
        v = z3.Int(n)
        st.pc.append(z3.And(v >= e.A.sym(lo, 64), v <= e.A.sym(hi, 64)))
        l0 = e.A.iv(lo)[0] if is_sym(lo) else lo
        h0 = e.A.iv(hi)[1] if is_sym(hi) else hi
        e.A.note(v, l0 if l0 is not None else -(1 << 63), h0 if h0 is not None else (1 << 63) - 1)
    if is_sym(lo) or is_sym(hi):
        if not e.feasible(st, True if False else z3.BoolVal(True)): raise PathDead()
    elif lo > hi: raise PathDead()
    st.inputs.append((n, 'i64', v))
    return v


@H.ex('vx_any_near')
def _any_near(e, st, fr, ins, name, a): return _any_i64(e, st, fr, ins, name, a[:3])


@H.ex('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock')
def _mutex(e, st, fr, ins, name, a):
    e.assumptions.add('one thread: locking a mutex always succeeds at once')
    return 0


@H.ex('vx_any_u64')
def _any_u64(e, st, fr, ins, name, a):
    n = uniq(st, cstring(e, a[0]))
    if e.A.name == 'bv': v = z3.BitVec(n, 64)
    else:
        v = z3.Int(n)
        st.pc.append(z3.And(v >= -(1 << 63), v < (1 << 63)))
        e.A.note(v, -(1 << 63), (1 << 63) - 1)
    st.inputs.append((n, 'u64', v))
    return v


@H.ex('vx_any_f64')
def _any_f64(e, st, fr, ins, name, a):
    n = uniq(st, cstring(e, a[0]))
    v = z3.Real(n)
    e.assumptions.add('double arithmetic treated as exact real arithmetic (no rounding, no NaN, no infinities)')
    for b, s in ((a[1], 0), (a[2], 1)):
        if not isinstance(b, Special): st.pc.append(v >= real(b) if s == 0 else v <= real(b))
    st.inputs.append((n, 'f64', v))
    return v


def _any_array(kind, nbytes):
    def h(e, st, fr, ins, name, a):
        n = uniq(st, cstring(e, a[0]))
        cnt = a[1]
        size = e.to_lin(cnt).scale(nbytes) if is_sym(cnt) else Lin(cnt * nbytes)
        i = e.new_obj(size, n)
        o = st.wobj(i)
        o.stride = nbytes
        srt = z3.RealSort() if kind == 'f' else e.A.sort(8 * nbytes)
        arr = z3.Array(n, e.idx_sort(), srt)
        o.arrays = {0: (nbytes, kind, arr)}
        k = z3.Const('%s.k' % n, e.idx_sort())
        if kind == 'f' or nbytes == 8:
            lo, hi = a[2], a[3]
            x = z3.Select(arr, k)
            if kind == 'f':
                cs = [x >= real(lo)] if not isinstance(lo, Special) else []
                if not isinstance(hi, Special): cs.append(x <= real(hi))
            else:
                cs = [x >= e.A.sym(lo, 64), x <= e.A.sym(hi, 64)]
            full = kind == 'i' and not is_sym(lo) and not is_sym(hi) and lo <= -(1 << 62) and hi >= (1 << 62)
            if cs and not full:
                if not is_sym(cnt) and cnt <= 64:
                    for q in range(cnt): st.pc.append(z3.substitute(z3.And(*cs), (k, e.idx_const(q))))
                else: st.pc.append(z3.ForAll([k], z3.And(*cs), patterns=[x]))
        st.inputs.append((n, 'arr_u32' if nbytes == 4 else 'arr', (arr, cnt)))
        return Ptr(i)
    return h


H.exact['vx_any_array_i64'] = _any_array('i', 8)
H.exact['vx_any_array_u32'] = _any_array('i', 4)
H.exact['vx_any_array_f64'] = _any_array('f', 8)


@H.ex('vx_assume_')
def _assume(e, st, fr, ins, name, a):
    c = a[0]
    if isinstance(c, bool):
        if not c: raise PathDead()
        return
    c = z3.simplify(c)
    if z3.is_true(c): return
    st.pc.append(c)
    if not e.feasible(st, z3.BoolVal(True)): raise PathDead()


@H.ex('vx_assert_')
def _assert(e, st, fr, ins, name, a):
    e.oblige(a[0], 'post: ' + cstring(e, a[1]))
    if not isinstance(a[0], bool) and not e.probe and not e.opt('rational', 0):
        st.pc.append(tobool(a[0]))


@H.ex('vx_cover_')
def _cover(e, st, fr, ins, name, a):
    l = cstring(e, a[0])
    if e.probe or e.covers.get(l): return
    r = 'unknown'
    if e.opt('rational', 0):
        import rat
        if rat.sample(st.pc, z3.BoolVal(True), 30) is not None: r = 'sat'
    if r == 'unknown': r = e.query(st.pc, z3.BoolVal(True))
    e.covers[l] = (r == 'sat') or (r == 'unknown' and 'unknown') or e.covers.get(l, False)


@H.ex('vx_split_')
def _split(e, st, fr, ins, name, a):
    """case distinction: continue with each possible concrete value of a small integer"""
    v, lo, hi = a
    if isinstance(v, bool): v = int(v)
    v = e.asint(v); lo = e.asint(lo); hi = e.asint(hi)
    if not is_sym(v): return v
    e.oblige(b_and(e.A.cmp('sle', lo, v, 64), e.A.cmp('sle', v, hi, 64)), 'cases are complete')
    return ('#states', e.fork_value(st, fr, ins, [(tobool(e.A.cmp('eq', v, k, 64)), k) for k in range(lo, hi + 1)]))


@H.ex('vx_rewrite_')
def _rewrite(e, st, fr, ins, name, a):
    """obligation x == y; from then on the verifier writes y where the program computes x again"""
    x, y, l = a
    e.oblige(e.fcompare('oeq', x, y), 'post: ' + cstring(e, l))
    if is_sym(x) and not isinstance(y, Special):
        st.ghost = dict(st.ghost)
        st.ghost['rewrite'] = dict(st.ghost.get('rewrite', {}))
        st.ghost['rewrite'][x.get_id()] = (x, y)


@H.ex('vx_assume_lazy_')
def _assume_lazy(e, st, fr, ins, name, a):
    """an assumption used for obligations but not for deciding which paths are feasible"""
    c = a[0]
    if isinstance(c, bool):
        if not c: raise PathDead()
        return
    c = z3.simplify(tobool(c))
    st.pc.append(c)
    e.lazy.add(c.get_id()); e.keep.append(c)


@H.ex('vx_is_const_')
def _is_const(e, st, fr, ins, name, a): return not is_sym(a[0]) and not isinstance(a[0], Special)


@H.ex('vx_forall_')
def _forall(e, st, fr, ins, name, a):
    lo, hi, f, ctx = a
    lo = e.asint(lo); hi = e.asint(hi)
    if not is_sym(lo) and not is_sym(hi) and hi - lo <= 70:
        r = True
        for k in range(lo, hi):
            r = b_and(r, e.call_merge(st, f, [ctx, k]))
            if isinstance(r, bool) and not r: return False
        return r
    k = z3.Const(e.fresh_name('q'), e.idx_sort())
    if e.A.name == 'int':
        e.A.note(k, *(x if x is not None else y for x, y in zip((e.A.iv(lo)[0], e.A.iv(hi)[1]), (-(1 << 63), (1 << 63) - 1))))
    rng = b_and(e.A.cmp('sle', lo, k, 64), e.A.cmp('slt', k, hi, 64))
    body = e.call_merge(st, f, [ctx, k], extra=tobool(rng))
    return z3.ForAll([k], z3.Implies(tobool(rng), tobool(body)))


@H.ex('vx_uf_i64_')
def _uf_i64(e, st, fr, ins, name, a):
    I = e.idx_sort()
    f = z3.Function('uf_' + cstring(e, a[0]), I, I, I)
    r = f(e.A.sym(e.asint(a[1]), 64), e.A.sym(e.asint(a[2]), 64))
    if e.A.name == 'int':
        e.A.note(r, -(1 << 63), (1 << 63) - 1)
        st.pc.append(z3.And(r >= -(1 << 63), r < (1 << 63)))
    return r


@H.ex('vx_uf_f64_')
def _uf_f64(e, st, fr, ins, name, a):
    I = e.idx_sort()
    f = z3.Function('uff_' + cstring(e, a[0]), I, I, z3.RealSort())
    return f(e.A.sym(e.asint(a[1]), 64), e.A.sym(e.asint(a[2]), 64))


@H.ex('vx_inv_push')
def _inv_push(e, st, fr, ins, name, a):
    st.invs = st.invs + [(a[0], a[1])]


@H.ex('vx_inv_pop')
def _inv_pop(e, st, fr, ins, name, a):
    st.invs = st.invs[:-1]


@H.ex('vx_option')
def _option(e, st, fr, ins, name, a):
    st.opts[cstring(e, a[0])] = a[1]


@H.ex('vx_opaque_')
def _opaque(e, st, fr, ins, name, a):
    o = st.wobj(a[0].obj)
    e.cell_clear(o, a[0].off.c, a[1])


# ---------------------------------------------------------------- C++ runtime
@H.ex('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def _new(e, st, fr, ins, name, a):
    return e.malloc(e.asint(a[0]) if not isinstance(a[0], PDiff) else a[0])


@H.ex('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t')
def _delete(e, st, fr, ins, name, a):
    p = a[0]
    if isinstance(p, Ptr) and p.obj and p.obj in st.mem:
        o = st.wobj(p.obj)
        if not o.alive: e.oblige(False, 'no double free')
        o.alive = False


@H.ex('__cxa_allocate_exception')
def _exalloc(e, st, fr, ins, name, a):
    return Ptr(e.new_obj(a[0], 'exception'))


@H.ex('__cxa_free_exception', '__cxa_atexit', '__cxa_guard_release', '__cxa_guard_abort')
def _nop(e, st, fr, ins, name, a):
    return 0


@H.ex('__cxa_throw')
def _throw(e, st, fr, ins, name, a):
    ti = None
    op = ins.a[1][1][1]
    if op[0] == 'glob': ti = op[1]
    e.do_throw(st, (a[0], ti))
    return ('#handled',)


@H.ex('_ZNKSt9exception4whatEv')
def _what(e, st, fr, ins, name, a):
    return a[0]


@H.ex('__cxa_begin_catch')
def _begin_catch(e, st, fr, ins, name, a):
    st.caught.append(st.exc)
    return a[0]


@H.ex('__cxa_end_catch')
def _end_catch(e, st, fr, ins, name, a):
    if st.caught: st.caught.pop()


@H.ex('__cxa_rethrow')
def _rethrow(e, st, fr, ins, name, a):
    e.do_throw(st, st.caught[-1])
    return ('#handled',)


@H.ex('_ZSt9terminatev', '__clang_call_terminate', 'abort', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv')
def _terminate(e, st, fr, ins, name, a):
    if name.strip('@') == '__clang_call_terminate' or 'terminate' in name or 'abort' in name:
        e.oblige(False, 'the program does not terminate abnormally')
    raise PathDead()


def throw_std(ti):
    def h(e, st, fr, ins, name, a):
        e.do_throw(st, (Ptr(e.new_obj(16, 'exception')), ti))
        return ('#handled',)
    return h


H.exact['_ZSt24__throw_out_of_range_fmtPKcz'] = throw_std('@_ZTISt12out_of_range')
H.exact['_ZSt20__throw_out_of_rangePKc'] = throw_std('@_ZTISt12out_of_range')
H.exact['_ZSt20__throw_length_errorPKc'] = throw_std('@_ZTISt12length_error')
H.exact['_ZSt25__throw_bad_function_callv'] = throw_std('@_ZTISt17bad_function_call')
H.exact['_ZSt24__throw_invalid_argumentPKc'] = throw_std('@_ZTISt16invalid_argument')
H.exact['_ZSt20__throw_domain_errorPKc'] = throw_std('@_ZTISt12domain_error')
H.exact['_ZSt19__throw_range_errorPKc'] = throw_std('@_ZTISt11range_error')
H.exact['_ZSt20__throw_system_errori'] = throw_std('@_ZTISt12system_error')
H.exact['_ZSt26__throw_bad_variant_accessPKc'] = throw_std('@_ZTISt18bad_variant_access')
H.exact['_ZSt19__throw_logic_errorPKc'] = throw_std('@_ZTISt11logic_error')


@H.ex('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _glibcxx_assert(e, st, fr, ins, name, a):
    e.oblige(False, 'standard library precondition')
    raise PathDead()


@H.ex('vx_expects_fail')
def _expects_fail(e, st, fr, ins, name, a):
    e.oblige(False, 'EXPECTS: ' + cstring(e, a[0]))
    raise PathDead()


for _n in ('floor', 'ceil', 'fabs', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow', 'round', 'trunc', 'tan', 'atan', 'cosh', 'sinh', 'tanh', 'lgamma', 'log2', 'expm1', 'log1p', 'acos', 'asin'):
    def _mk(n):
        def h(e, st, fr, ins, name, a): return mathfn(e, n, a)
        return h
    H.exact[_n] = _mk(_n)


@H.ex('fmod')
def _fmod(e, st, fr, ins, name, a): return e.farith('frem', a[0], a[1])


@H.ex('lround', 'llround')
def _lround(e, st, fr, ins, name, a):
    return e.A.from_real(mathfn(e, 'round', [a[0]]), 64, True)


@H.ex('labs', 'abs', 'llabs')
def _labs(e, st, fr, ins, name, a):
    w = ins.ty[1]
    x = e.asint(a[0])
    if not is_sym(x): return abs(x)
    return z3.If(e.A.cmp('slt', x, 0, w), -x, x)


@H.ex('memcmp', 'bcmp')
def _memcmp(e, st, fr, ins, name, a):
    n = a[2]
    if is_sym(n): raise Unsupported('memcmp of symbolic length')
    if n == 0: return 0
    x, y = a[0], a[1]
    r = 0
    for i in reversed(range(n)):  # the first differing byte decides
        p = e.load(Ptr(x.obj, x.off.add(i)), ('int', 8)); q = e.load(Ptr(y.obj, y.off.add(i)), ('int', 8))
        if not is_sym(p) and not is_sym(q):
            if p & 255 != q & 255: r = -1 if p & 255 < q & 255 else 1
            continue
        lt, ne = e.A.cmp('ult', p, q, 8), b_not(e.A.cmp('eq', p, q, 8))
        r = z3.If(tobool(ne), z3.If(tobool(lt), e.A.sym(-1, 32), e.A.sym(1, 32)), e.A.sym(r, 32) if not is_sym(r) else r)
    return r


@H.ex('_ZSt11_Hash_bytesPKvmm', '_ZSt15_Fnv_hash_bytesPKvmm')
def _hash_bytes(e, st, fr, ins, name, a):
    e.assumptions.add('std::hash of a byte sequence is a function of its content (uninterpreted)')
    n, seed, p = a[1], a[2], a[0]
    if is_sym(n): raise Unsupported('hash of a byte sequence of symbolic length')
    o = st.mem.get(p.obj)
    args = None
    if n == 8:
        v = None
        c = o.cells.get(p.off.c) if o is not None and not p.off.t else None
        v = c[1] if c is not None and (c[2] == 'f' or isinstance(c[1], Fraction)) else e.load(p, ('int', 64))
        if isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v)): args = [real(v)]
        else: args = [e.A.sym(e.asint(v), 64)]
    else:
        args = []
        k = 0
        while k < n:
            w = 8 if n - k >= 8 and False else 1
            args.append(e.A.sym(e.asint(e.load(Ptr(p.obj, p.off.add(k)), ('int', 8))), 8))
            k += w
    args.append(e.A.sym(seed, 64))
    f = z3.Function('hash_bytes%d%s' % (n, 'f' if args[0].sort() == z3.RealSort() else ''), *[x.sort() for x in args], e.A.sort(64))
    r = f(*args)
    if e.A.name == 'int':
        e.A.note(r, -(1 << 63), (1 << 63) - 1)
        st.pc.append(z3.And(r >= -(1 << 63), r < (1 << 63)))
    return r


@H.ex('memmove', 'memcpy')
def _memmove(e, st, fr, ins, name, a):
    n = a[2]
    if isinstance(n, PDiff): n = e.lin_expr(n.lin)
    e.memcpy(a[0], a[1], n)
    return a[0]


@H.ex('memset')
def _memset(e, st, fr, ins, name, a):
    n = a[2]
    if isinstance(n, PDiff): n = e.lin_expr(n.lin)
    e.memset(a[0], a[1], n)
    return a[0]


@H.ex('strlen')
def _strlen(e, st, fr, ins, name, a):
    return len(cstring(e, a[0]))


@H.ex('exit', '_exit')
def _exit(e, st, fr, ins, name, a):
    e.oblige(False, 'the program does not exit')
    raise PathDead()


# ---- trusted: error reporting. Building the message has no effect on anything a property talks about.
@H.on(r'^triqs::(exception|runtime_error|keyboard_interrupt)::(exception|runtime_error|keyboard_interrupt)\(|^triqs::exception::(what|trace)|^triqs::(exception|runtime_error)::operator=')
def _exc_ctor(e, st, fr, ins, name, a):
    e.assumptions.add('constructing an exception message has no other effect')
    return None


@H.on(r'^triqs::(exception|runtime_error|keyboard_interrupt)::~(exception|runtime_error|keyboard_interrupt)\(')
def _exc_dtor(e, st, fr, ins, name, a):
    return None


@H.on(r'triqs::(exception|runtime_error)& triqs::.*operator<< ?<|^std::exception::|^std::runtime_error::|^std::logic_error::|^std::runtime_error::~')
def _exc_msg(e, st, fr, ins, name, a):
    return a[0] if a else None


# ---- trusted: text output and strings used only for messages
@H.on(r'^std::(basic_ostream|ostream|basic_ios|ios_base|__cxx11::basic_o?i?stringstream|basic_stringbuf|__cxx11::basic_stringbuf)|^std::operator<<|^std::.*operator<<<|std::endl|std::flush|^std::__ostream_insert|std::basic_ostream<char.*operator<<')
def _ostream(e, st, fr, ins, name, a):
    e.assumptions.add('text output has no effect on the state a property talks about')
    return a[0] if a and isinstance(a[0], Ptr) else None


# ---- compiler runtime: complex arithmetic (in exact real arithmetic)
@H.ex('__muldc3')
def _muldc3(e, st, fr, ins, name, v):
    a, b, c, d = v
    m = lambda x, y: e.farith('fmul', x, y)
    return [e.farith('fsub', m(a, c), m(b, d)), e.farith('fadd', m(a, d), m(b, c))]


@H.ex('__divdc3')
def _divdc3(e, st, fr, ins, name, v):
    a, b, c, d = v
    zero = lambda x: not is_sym(x) and x == 0
    D = lambda x, y: e.farith('fdiv', x, y)
    if zero(d): return [D(a, c), D(b, c)]
    if zero(c): return [D(b, d), e.farith('fsub', Fraction(0), D(a, d))]
    m = lambda x, y: e.farith('fmul', x, y)
    den = e.farith('fadd', m(c, c), m(d, d))
    return [D(e.farith('fadd', m(a, c), m(b, d)), den), D(e.farith('fsub', m(b, c), m(a, d)), den)]


@H.ex('cexp')
def _cexp(e, st, fr, ins, name, v):
    # exp(x) (cos(y) + i sin(y)); the argument in canonical form with a positive leading coefficient, as cos is even and sin odd
    x, y = v
    if is_sym(x):
        x = z3.simplify(x, som=True)
        if z3.is_rational_value(x): x = Fraction(x.numerator_as_long(), x.denominator_as_long())
    if is_sym(y):
        y = z3.simplify(y, som=True, sort_sums=True)
        if z3.is_rational_value(y): y = Fraction(y.numerator_as_long(), y.denominator_as_long())
    r = Fraction(1) if not is_sym(x) and x == 0 else mathfn(e, 'exp', [x])
    if not is_sym(y) and y == 0: return [r, Fraction(0)]
    neg = y < 0 if not is_sym(y) else leading_negative(y)
    if neg: y = z3.simplify(-y, som=True, sort_sums=True) if is_sym(y) else -y
    c, s = mathfn(e, 'cos', [y]), mathfn(e, 'sin', [y])
    e.lemma(c * c + s * s == 1)
    if neg: s = e.farith('fsub', Fraction(0), s)
    return [e.farith('fmul', r, c), e.farith('fmul', r, s)]


def leading_negative(y):
    t = y.arg(0) if z3.is_add(y) else y
    while True:
        if z3.is_rational_value(t): return t.numerator_as_long() < 0
        if z3.is_app_of(t, z3.Z3_OP_UMINUS): return True
        if z3.is_mul(t): t = t.arg(0)
        else: return False


@H.ex('cabs', 'hypot')
def _cabs(e, st, fr, ins, name, v):
    a, b = v
    r = mathfn(e, 'sqrt', [e.farith('fadd', e.farith('fmul', a, a), e.farith('fmul', b, b))])
    if is_sym(r):
        A, B = mathfn(e, 'fabs', [a]), mathfn(e, 'fabs', [b])
        e.lemma(z3.And(r >= real(A), r >= real(B), r <= real(A) + real(B)))
    return r


@H.ex('getenv', 'secure_getenv')
def _getenv(e, st, fr, ins, name, a):
    e.assumptions.add('environment variables read by the code are not set')
    return NULL


@H.ex('__errno_location')
def _errno(e, st, fr, ins, name, a):
    if 'errno' not in st.ghost:
        st.ghost['errno'] = e.new_obj(4, 'errno')
        e.store(Ptr(st.ghost['errno']), ('int', 32), 0)
    return Ptr(st.ghost['errno'])


@H.ex('strtol', 'strtoll', '__isoc23_strtol', '__isoc23_strtoll')
def _strtol(e, st, fr, ins, name, a):
    p, end, base = a
    o = e.st.mem[p.obj]
    i = p.off.c
    c = o.cells.get(i)
    # the text must be concrete up to the first character that ends the number
    while i in o.cells and o.cells[i][0] == 1 and isinstance(o.cells[i][1], int) and (chr(o.cells[i][1] & 255).isalnum() or chr(o.cells[i][1] & 255) in ' +-'): i += 1
    if i not in o.cells or o.cells[i][0] != 1 or not isinstance(o.cells[i][1], int): raise Unsupported('strtol of symbolic text')
    s = cstring(e, p)
    if base != 10: raise Unsupported('strtol base')
    import re as _re
    m = _re.match(r'\s*[+-]?\d+', s)
    if end.obj: e.store(end, ('ptr',), Ptr(p.obj, p.off.add(m.end() if m else 0)))
    v = int(m.group(0)) if m else 0
    if not -(1 << 63) <= v < 1 << 63:
        e.store(_errno(e, st, fr, ins, name, a), ('int', 32), 34)
        v = max(-(1 << 63), min(v, (1 << 63) - 1))
    return v


# ---- clocks and texts with the time of day
@H.on(r'^std::chrono::_V2::(system_clock|steady_clock)::now\(')
def _now(e, st, fr, ins, name, a):
    e.assumptions.add('clocks return arbitrary times between 1970 and 2116 and do not go backwards')
    t = e.fresh_int(64, 'now')
    last = st.ghost.get('now')
    st.pc.append(z3.And(e.A.sym(0, 64) <= t, t < e.A.sym(1 << 62, 64)))
    if last is not None: st.pc.append(last <= t)
    st.ghost['now'] = t
    if e.A.name == 'int': e.A.note(t, 0, (1 << 62) - 1)
    return t


@H.on(r'^triqs::utility::(timestamp|hours_minutes_seconds_from_seconds|estimate_time_left)(\[abi:cxx11\])?\(')
def _timetext(e, st, fr, ins, name, a):
    e.assumptions.add('texts with the time of day have no effect on the state a property talks about')
    p = a[0]
    buf = Ptr(p.obj, p.off.add(16))
    e.store(p, ('ptr',), buf)
    e.store(Ptr(p.obj, p.off.add(8)), ('int', 64), 0)
    e.store(buf, ('int', 8), 0)
    return None


@H.ex('__assert_fail')
def _assert_fail(e, st, fr, ins, name, a):
    e.oblige(False, 'assert(%s) of the code' % cstring(e, a[0])[:80])
    raise PathDead()
