"""Deductive verifier for LLVM IR: symbolic execution over all paths with exact obligations, loop invariants (declared over ghost
state / objects + inferred lock-step induction), contract handlers for functions outside reach.  See DESIGN.md."""
import os, time, re, subprocess, itertools
import z3
from fractions import Fraction
import ir
from arith import (BV, INT, is_sym, sgn, b_not, b_and, b_or, tobool, real, floor_real, trunc_real)


class Unsupported(Exception):
    pass


class Lin:
    """linear byte offset: c + sum coef*term"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # tuple of (id, coef, expr) sorted by id

    def add(self, o, k=1):
        if isinstance(o, int): return Lin(self.c + k * o, self.t)
        if not o.t: return Lin(self.c + k * o.c, self.t)
        d = {i: (co, e) for i, co, e in self.t}
        for i, co, e in o.t:
            c0 = d[i][0] if i in d else 0
            n = c0 + k * co
            if n: d[i] = (n, e)
            else: d.pop(i, None)
        return Lin(self.c + k * o.c, tuple(sorted((i, co, e) for i, (co, e) in d.items())))

    def scale(self, k):
        if k == 0: return Lin()
        return Lin(self.c * k, tuple((i, co * k, e) for i, co, e in self.t))

    def __repr__(self): return '%d%s' % (self.c, ''.join(' + %d*%s' % (co, e) for i, co, e in self.t))


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=None):
        self.obj = obj
        self.off = off if off is not None else Lin()

    def __repr__(self): return 'Ptr(%s,%r)' % (self.obj, self.off)


NULL = Ptr(0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name): self.name = name

    def __repr__(self): return 'Fn(%s)' % self.name


class PDiff:
    """integer that is the difference of two pointers into one object (bytes)"""
    __slots__ = ('lin',)

    def __init__(self, lin): self.lin = lin


class Special:
    """non-finite double constant"""
    __slots__ = ('f',)

    def __init__(self, f): self.f = f


class Obj:
    __slots__ = ('size', 'cells', 'arrays', 'stride', 'name', 'alive', 'zero', 'fill', 'const')

    def __init__(self, size, name=''):
        self.size = size  # int or Lin
        self.cells = {}  # off -> (nbytes, value, kind)   kind: 'i','f','p'
        self.arrays = None  # region mode: {field off: (nbytes, kind, z3 array)}
        self.stride = None
        self.name = name
        self.alive = True
        self.zero = False
        self.fill = None
        self.const = False

    def copy(self):
        o = Obj(self.size, self.name)
        o.cells = dict(self.cells)
        o.arrays = dict(self.arrays) if self.arrays is not None else None
        o.stride = self.stride
        o.alive = self.alive
        o.zero = self.zero
        o.const = self.const
        return o


class Frame:
    __slots__ = ('f', 'bb', 'ip', 'regs', 'prev', 'allocas', 'ret_to', 'loops', 'kind', 'onret')

    def __init__(self, f):
        self.f = f
        self.bb = None
        self.ip = 0
        self.regs = {}
        self.prev = None
        self.allocas = []
        self.loops = []
        self.kind = 'call'
        self.onret = None

    def copy(self):
        g = Frame(self.f)
        g.bb = self.bb; g.ip = self.ip; g.regs = dict(self.regs); g.prev = self.prev
        g.allocas = list(self.allocas); g.loops = list(self.loops); g.kind = self.kind; g.onret = self.onret
        return g


class LoopCtx:
    __slots__ = ('header', 'body', 'mode', 'snap', 'count', 'info', 'symexits')

    def __init__(self, header, body, mode, snap=None):
        self.header = header; self.body = body; self.mode = mode; self.snap = snap; self.count = 0; self.info = None; self.symexits = 0

    def copy(self):
        c = LoopCtx(self.header, self.body, self.mode, self.snap)
        c.count = self.count; c.info = self.info; c.symexits = self.symexits
        return c


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.invs = []
        self.opts = {}
        self.exc = None
        self.caught = []
        self.inputs = []
        self.names = {}
        self.outcome = None
        self.retval = None
        self.base = 0
        self.ghost = {}

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.owned = set()
        s.owned = set()
        s.pc = list(self.pc)
        s.invs = list(self.invs)
        s.opts = dict(self.opts)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.inputs = list(self.inputs)
        s.names = dict(self.names)
        s.base = self.base
        s.ghost = dict(self.ghost)
        return s

    def wobj(self, i):
        o = self.mem[i]
        if i not in self.owned:
            o = o.copy()
            self.mem[i] = o
            self.owned.add(i)
        return o


class Obligation:
    __slots__ = ('label', 'status', 'time', 'backend', 'model', 'detail', 'where')

    def __init__(self, label, status, t=0, backend='', model=None, detail='', where=''):
        self.label = label; self.status = status; self.time = t; self.backend = backend; self.model = model; self.detail = detail; self.where = where


class PathDead(Exception):
    pass


_real = {}


def has_real(e):
    """does the formula contain real numbers"""
    i = e.get_id()
    if i in _real: return _real[i][0]
    stack, seen, r = [e], set(), False
    while stack and not r:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_real(x): r = True
        stack.extend(x.children())
    _real[i] = (r, e)
    return r


class StopAll(Exception):
    pass


class Engine:
    def __init__(self, mod, demangled, handlers, mode='bv', timeout=10.0, budget=300.0, verbose=False):
        self.mod = mod
        self.dem = demangled  # mangled -> demangled
        self.handlers = handlers
        self.A = BV(self) if mode == 'bv' else INT(self)
        self.solver = z3.Solver()
        self.solver.set('timeout', int(timeout * 1000))
        self.sstack = []
        self.timeout = timeout
        self.budget = budget
        self.t0 = time.time()
        self.st = None
        self.fresh_n = 0
        self.obj_n = 1
        self.gobj = {}
        self.obligations = []
        self.covers = {}
        self.assumptions = set()
        self.probe = 0
        self.probe_writes = None
        self.probe_cmps = None
        self.solver_time = 0.0
        self.nq = 0
        self.verbose = verbose
        self.hcache = {}
        self.paths = 0
        self.executed = set()
        self.steps = 0
        self.failed_labels = set()
        self.proved_cache = {}
        self.keep = []
        self.symc = {}
        self.specc = {}
        self.lazy = set()
        self.models = []
        self.nhit = 0
        self.slice_sat = False
        self.default_opts = {}

    # ---------------------------------------------------------------- solver
    def unsup(self, msg):
        return Unsupported(msg)

    def opt(self, k, d=0):
        return self.st.opts.get(k, self.default_opts.get(k, d))

    def sync(self, pc):
        s = self.sstack
        n = 0
        while n < len(s) and n < len(pc) and (s[n] is pc[n] or s[n].eq(pc[n])): n += 1
        if len(s) > n:
            self.solver.pop(len(s) - n)
            del s[n:]
        for c in pc[n:]:
            self.solver.push()
            self.solver.add(c)
            s.append(c)

    def query(self, pc, extra, timeout=None, need_model=False, over=False):
        """returns 'unsat','sat','unknown'"""
        if time.time() - self.t0 > self.budget: raise StopAll('time budget')
        t = time.time()
        self.nq += 1
        T = timeout or self.timeout
        if self.opt('rational', 0): return self.outside(pc if need_model else self.slice(pc, extra), extra, T, over)
        if self.lazy or over:
            # first without the assumptions that are only needed by final obligations
            sl = self.slice([c for c in pc if c.get_id() not in self.lazy] if self.lazy else pc, extra)
            if over and self.models:
                # a recent model may already show that the case is possible
                cj = z3.And(*sl, extra) if sl else extra
                for i, mdl in enumerate(self.models):
                    if z3.is_true(mdl.eval(cj, model_completion=True)):
                        if i: self.models.insert(0, self.models.pop(i))
                        self.solver_time += time.time() - t
                        self.nhit += 1
                        return 'sat'
            q = z3.Solver()
            q.set('timeout', int(min(T, 2.0) * 1000))
            for c in sl: q.add(c)
            q.add(extra)
            r = str(q.check())
            if r == 'sat' and over:
                self.models.insert(0, q.model())
                del self.models[6:]
            if r == 'unsat' or r == 'sat' and over:
                self.solver_time += time.time() - t
                return r
        r = self.inc_query(pc, extra, min(T, 0.3))
        if r == 'unknown':
            sl = self.slice(pc, extra)
            if len(sl) < len(pc):
                q = z3.Solver()
                q.set('timeout', int(T * 1000))
                for c in sl: q.add(c)
                q.add(extra)
                r = str(q.check())
                if r == 'sat':
                    if need_model:
                        r = 'unknown'
                        self.slice_sat = True
            if r == 'unknown' and T > 0.5 and not need_model:
                nd = self.nodiv(sl + [extra])
                if nd is not None:
                    q = z3.Solver()
                    q.set('timeout', int(T * 500))
                    for c in nd: q.add(c)
                    r = str(q.check())
                    if r == 'sat': r = 'unknown'
            if r == 'unknown' and T > 0.3 and (len(sl) == len(pc) or need_model): r = self.inc_query(pc, extra, T)
        self.solver_time += time.time() - t
        return r

    def outside(self, cs, extra, T, over=False):
        """z3 in a process of its own: on products of many reals it may ignore its time limit"""
        self.last_model = None
        t = time.time()
        if over and not has_real(extra):
            # a case distinction over integers: the conditions on integers decide, a case too many does no harm
            q = z3.Solver()
            q.set('timeout', int(T * 1000))
            for c in cs:
                if not has_real(c): q.add(c)
            q.add(extra)
            r = str(q.check())
            self.solver_time += time.time() - t
            return 'sat' if r == 'unknown' else r
        q = z3.Solver()
        for c in cs: q.add(c)
        q.add(extra)
        r = z3.simplify(z3.And(*q.assertions()))
        if z3.is_true(r): r = 'sat'
        elif z3.is_false(r): r = 'unsat'
        else:
            try:
                p = subprocess.run(['z3', '-T:%d' % max(1, int(T + 0.5)), '-in'], input=q.to_smt2(), capture_output=True, text=True, timeout=T + 5)
                r = p.stdout.strip().split('\n')[0]
            except subprocess.TimeoutExpired:
                r = 'unknown'
            if r not in ('sat', 'unsat'): r = 'unknown'
        self.solver_time += time.time() - t
        return r

    def inc_query(self, pc, extra, T):
        self.sync(pc)
        self.solver.push()
        self.solver.add(extra)
        self.solver.set('timeout', int(T * 1000))
        r = str(self.solver.check())
        self.last_model = None
        if r == 'sat':
            try:
                self.last_model = self.solver.model()
            except z3.Z3Exception:
                pass
        self.solver.pop()
        return r

    def nodiv(self, cs):
        """the constraints with every real quotient x/y written x*inv(y); None if there is no such quotient"""
        subst, side, cache = {}, [], {}
        def rw(x):
            i = x.get_id()
            if i in cache: return cache[i]
            if z3.is_quantifier(x) or not z3.is_app(x): r = x
            else:
                ch = [rw(c) for c in x.children()]
                if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                    k = ch[1].get_id()
                    if k not in subst:
                        v = z3.Real('inv!%d' % len(subst))
                        subst[k] = (v, ch[1])
                        side.append(z3.Or(ch[1] == 0, v * ch[1] == 1))
                    r = ch[0] * subst[k][0]
                else:
                    r = x.decl()(*ch) if ch and any(a.get_id() != b.get_id() for a, b in zip(ch, x.children())) else x
            cache[i] = r
            self.keep.append(x)
            return r
        try:
            out = [rw(c) for c in cs]
        except z3.Z3Exception:
            return None
        return out + side if subst else None

    def symset(self, e):
        """names of the uninterpreted symbols of e"""
        i = e.get_id()
        c = self.symc.get(i)
        if c is not None: return c
        out = set()
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            j = x.get_id()
            if j in seen: continue
            seen.add(j)
            if z3.is_quantifier(x): stack.append(x.body()); continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED and (d.arity() == 0 or not d.name().startswith('hash_')): out.add(d.name())
                stack.extend(x.children())
        c = frozenset(out)
        self.symc[i] = c
        self.keep.append(e)
        return c

    def slice(self, pc, extra):
        """the constraints of pc connected to extra through shared symbols"""
        need = set(self.symset(extra))
        rest = [(c, self.symset(c)) for c in pc]
        out = []
        while True:
            nr = []
            grew = False
            for c, v in rest:
                if v & need:
                    out.append(c); need |= v; grew = True
                else: nr.append((c, v))
            rest = nr
            if not grew: return out

    def quick_prove(self, c):
        if isinstance(c, bool): return c
        return self.query(self.st.pc, z3.Not(c), 1.0, over=True) == 'unsat'

    def rational(self, c):
        """does the path condition imply c (True), not c (False): by normal forms of rational functions; None: unknown"""
        import rat
        r = getattr(self, 'rat', None)
        if r is None: r = self.rat = rat.Rat()
        try:
            return r.decide(c, self.st.pc)
        except (rat.TooBig, RecursionError):
            return None

    def feasible(self, st, c):
        if isinstance(c, bool): return c
        if self.opt('rational', 0):
            r = self.rational(c)
            if r is not None: return r
        return self.query(st.pc, c, 3.0, over=True) != 'unsat'

    def assume_quiet(self, c):
        if self.st is not None: self.st.pc.append(c)

    def lemma(self, c):
        self.st.pc.append(c)

    def fresh_name(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def fresh_int(self, w, name='u'):
        if w == 1: return z3.Bool(self.fresh_name(name))
        return self.A.fresh(self.fresh_name(name), w)

    def fresh_real(self, name='r'):
        return z3.Real(self.fresh_name(name))

    # ---------------------------------------------------------------- obligations
    def where(self):
        st = self.st
        fr = st.frames[-1] if st.frames else None
        return self.demname(fr.f.name) if fr else ''

    def demname(self, n):
        return self.dem.get(n.lstrip('@').strip('"'), n)

    def oblige(self, cond, label, assume=True):
        """cond must hold on the current path"""
        if isinstance(cond, bool) and cond:
            if label.startswith('post:') and not self.probe: self.record(Obligation(label, 'proved', 0, 'simplify'))
            return
        st = self.st
        if self.probe:
            if isinstance(cond, bool): raise PathDead()
            st.pc.append(cond)
            return
        t = time.time()
        c = tobool(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            self.record(Obligation(label, 'proved', 0, 'simplify'))
            return
        if z3.is_false(c):
            r = self.query(st.pc, z3.BoolVal(True))
            if r != 'unsat' and os.environ.get('VX_PC'): print(label, [str(x) for x in st.pc if re.search(os.environ['VX_PC'], str(x))])
            if r == 'unsat':
                self.record(Obligation(label, 'proved', time.time() - t, 'z3 (path infeasible)'))
                raise PathDead()
        else:
            if self.opt('rational', 0):
                if self.rational(c) is True:
                    self.record(Obligation(label, 'proved', time.time() - t, 'rational identity'))
                    return
            if self.A.name == 'bv':
                import anf
                if anf.prove(c):
                    self.record(Obligation(label, 'proved', time.time() - t, 'anf'))
                    return
                sl = self.slice(st.pc, z3.Not(c))
                ab = anf.abstract(sl + [z3.Not(c)])
                if ab is not None:
                    s = z3.Solver()
                    s.set('timeout', int(self.timeout * 500))
                    s.add(*ab)
                    if s.check() == z3.unsat:
                        self.record(Obligation(label, 'proved', time.time() - t, 'anf+z3'))
                        return
            m = None
            if self.opt('rational', 0):
                import rat
                m = rat.sample(st.pc, z3.Not(c))
            r = 'sat' if m is not None else self.query(st.pc, z3.Not(c), need_model=True)
            if m is not None: self.last_model = m
        be = 'z3'
        model = self.last_model if r == 'sat' else None
        if r == 'unknown':
            r, be, model = self.second_opinion(st.pc, z3.Not(c))
        dt = time.time() - t
        if r == 'unsat':
            self.record(Obligation(label, 'proved', dt, be))
            return
        ob = Obligation(label, 'refuted' if r == 'sat' else 'unknown', dt, be, where=self.where())
        if model is not None: ob.model = self.model_inputs(st, model)
        ob.detail = str(c)[:600]
        self.record(ob)
        if z3.is_false(c): raise PathDead()
        if assume:
            # continue under the assumption that it holds, so that one failure does not hide others
            st.pc.append(c)
            if not self.feasible(st, z3.BoolVal(True)): raise PathDead()

    def second_opinion(self, pc, neg):
        t = time.time()
        sl = pc if self.slice_sat else self.slice(pc, neg)
        self.slice_sat = False
        s = z3.Solver()
        s.set('timeout', int(self.timeout * 1000))
        for c in sl: s.add(c)
        s.add(neg)
        rational = self.opt('rational', 0)
        r = 'unknown' if rational else str(s.check())
        self.solver_time += time.time() - t
        if r == 'unsat': return 'unsat', 'z3 (fresh)', None
        if r == 'sat': return 'sat', 'z3 (fresh)', s.model()
        for k in () if rational else (1, 2):
            # other heuristics: another search order, the older arithmetic solver
            t = time.time()
            q = z3.SimpleSolver() if k == 2 else z3.Solver()
            q.set('timeout', int(self.timeout * 700))
            q.set('random_seed', 7 * k)
            if k == 1: q.set('arith.solver', 2)
            for c in sl: q.add(c)
            q.add(neg)
            try:
                r = str(q.check())
            except z3.Z3Exception:
                r = 'unknown'
            self.solver_time += time.time() - t
            if r == 'unsat': return 'unsat', 'z3 (other heuristics)', None
            if r == 'sat': return 'sat', 'z3 (other heuristics)', q.model()
        t = time.time()
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % int(self.timeout * 1500), '--nl-ext=full', '--lang=smt2', '-'], input=txt, capture_output=True, text=True, timeout=self.timeout * 2 + 5)
            o = p.stdout.strip().split('\n')[0]
        except Exception as ex:
            o = 'unknown'
        self.solver_time += time.time() - t
        if o == 'unsat': return 'unsat', 'cvc5', None
        if o == 'sat': return 'sat', 'cvc5', None
        return 'unknown', 'z3+cvc5', None

    def record(self, ob):
        self.obligations.append(ob)
        if self.verbose and ob.status != 'proved': print('   ', ob.status, ob.label, ob.where, ob.detail[:300], ob.model)
        if ob.status != 'proved': self.failed_labels.add(ob.label)
        if sum(1 for o in self.obligations if o.status != 'proved') >= 4: raise StopAll('enough failures')

    def model_inputs(self, st, m):
        out = {}
        for name, kind, e in st.inputs:
            try:
                if kind == 'const': out[name] = str(e); continue
                if kind in ('arr', 'arr_u32'):
                    arr, n = e
                    nn = m.eval(n, model_completion=True) if is_sym(n) else n
                    nn = nn.as_long() if is_sym(nn) else nn
                    for i in range(min(nn, 64)):
                        v = m.eval(z3.Select(arr, z3.BitVecVal(i, 64) if self.A.name == 'bv' else z3.IntVal(i)), model_completion=True)
                        out['%s[%d]' % (name, i)] = self.fmt(v, kind == 'arr_u32')
                    continue
                v = m.eval(e, model_completion=True)
                out[name] = self.fmt(v, kind == 'u64')
            except Exception as ex:
                out[name] = '?%s' % ex
        return out

    def fmt(self, v, unsigned):
        if z3.is_bv_value(v): return str(v.as_long() if unsigned else v.as_signed_long())
        if z3.is_int_value(v):
            n = v.as_long()
            return str(n & (2**64 - 1) if unsigned else n)
        if z3.is_rational_value(v): return repr(float(v.as_fraction()))
        if z3.is_algebraic_value(v): return repr(float(v.approx(20).as_fraction()))
        if z3.is_true(v): return '1'
        if z3.is_false(v): return '0'
        return str(v)

    # ---------------------------------------------------------------- memory
    def new_obj(self, size, name=''):
        i = self.obj_n
        self.obj_n += 1
        o = Obj(size, name)
        self.st.mem[i] = o
        self.st.owned.add(i)
        return i

    def to_lin(self, e, w=64):
        """value -> Lin"""
        if isinstance(e, PDiff): return e.lin
        if not is_sym(e): return Lin(e)
        k = e.decl().kind()
        if z3.is_int_value(e): return Lin(e.as_long())
        if z3.is_bv_value(e): return Lin(e.as_signed_long())
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_BADD):
            r = Lin()
            for c in e.children(): r = r.add(self.to_lin(c))
            return r
        if k in (z3.Z3_OP_SUB, z3.Z3_OP_BSUB):
            ch = e.children()
            r = self.to_lin(ch[0])
            for c in ch[1:]: r = r.add(self.to_lin(c), -1)
            return r
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_BMUL):
            a, b = e.arg(0), e.arg(1)
            if e.num_args() == 2:
                for x, y in ((a, b), (b, a)):
                    if z3.is_int_value(x): return self.to_lin(y).scale(x.as_long())
                    if z3.is_bv_value(x): return self.to_lin(y).scale(x.as_signed_long())
        if k == z3.Z3_OP_UMINUS: return self.to_lin(e.arg(0)).scale(-1)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            return self.to_lin(e.arg(0)).scale(1 << e.arg(1).as_long())
        self.keep.append(e)
        return Lin(0, ((e.get_id(), 1, e),))

    def lin_expr(self, l, w=64):
        """Lin -> int value (python int or expr)"""
        if not l.t: return l.c
        r = None
        for i, co, e in l.t:
            x = e if co == 1 else self.A.sym(co, w) * e
            r = x if r is None else r + x
        if l.c: r = r + self.A.sym(l.c, w)
        return r

    def lin_div(self, l, k):
        if l.c % k or any(co % k for i, co, e in l.t): return None
        return Lin(l.c // k, tuple((i, co // k, e) for i, co, e in l.t))

    def asint(self, v):
        """flatten PDiff etc to plain int value"""
        if isinstance(v, PDiff): return self.lin_expr(v.lin)
        if isinstance(v, Ptr):
            if v.obj == 0: return self.lin_expr(v.off)
            if v.obj not in self.st.mem: raise Unsupported('address of unknown object used as an integer')
            # an address: an unknown positive constant plus offset
            b = z3.Int('addr!%d' % v.obj) if self.A.name == 'int' else z3.BitVec('addr!%d' % v.obj, 64)
            return b + self.A.sym(self.lin_expr(v.off), 64)
        if isinstance(v, (Special, FnPtr)): raise Unsupported('non-integer value used as an integer')
        return v

    def bounds(self, o, off, n, what):
        """obligation: [off, off+n) inside the object"""
        if not o.alive:
            self.oblige(False, 'no access to released memory')
        size = o.size
        if isinstance(size, Lin) and not size.t: size = size.c
        if not off.t and isinstance(size, int):
            if not (0 <= off.c and off.c + n <= size):
                self.oblige(False, 'memory access in bounds (%s)' % what)
            return
        S = size if isinstance(size, Lin) else Lin(size)
        a = self.A
        lo = self.lin_expr(off)
        rest = self.lin_expr(S.add(off, -1).add(-n))
        # try dividing by the stride for simpler goals
        c = b_and(a.cmp('sge', lo, 0, 64), a.cmp('sge', rest, 0, 64))
        if o.stride and o.stride > 1:
            q = Lin(off.c // o.stride, off.t)
            if all(co % o.stride == 0 for i, co, e in off.t):
                idx = Lin(off.c // o.stride, tuple((i, co // o.stride, e) for i, co, e in off.t))
                if all(co % o.stride == 0 for i, co, e in S.t):
                    cnt = Lin(S.c // o.stride, tuple((i, co // o.stride, e) for i, co, e in S.t))
                    if (off.c % o.stride) + n <= o.stride:
                        c = b_and(a.cmp('sge', self.lin_expr(idx), 0, 64), a.cmp('slt', self.lin_expr(idx.add(cnt, -1)), 0, 64) if a.name == 'int' else a.cmp('slt', self.lin_expr(idx), self.lin_expr(cnt), 64))
        self.oblige(c, 'memory access in bounds (%s)' % what)

    def kind_of(self, ty):
        if ty[0] == 'int': return 'i'
        if ty[0] in ('double', 'float', 'fp80'): return 'f'
        if ty[0] == 'ptr': return 'p'
        raise Unsupported('access type %r' % (ty,))

    def load(self, p, ty):
        ty = self.mod.tt.resolve(ty)
        if ty[0] == 'struct':
            offs, _ = self.mod.tt.layout(ty)
            return [self.load(Ptr(p.obj, p.off.add(o)), t) for o, t in zip(offs, ty[1])]
        if ty[0] in ('arr', 'vec'):
            s = self.mod.tt.size(ty[2])
            return [self.load(Ptr(p.obj, p.off.add(s * i)), ty[2]) for i in range(ty[1])]
        if isinstance(p, FnPtr): raise Unsupported('load from a function')
        if not isinstance(p, Ptr): raise Unsupported('load through a non-pointer %r' % (p,))
        n = self.mod.tt.size(ty)
        kind = self.kind_of(ty)
        if p.obj == 0:
            self.oblige(False, 'no null dereference')
            return self.fresh_val(ty)
        o = self.st.mem[p.obj]
        self.bounds(o, p.off, n, 'read')
        if o.arrays is not None or (p.off.t and self.want_region(o)):
            return self.region_load(p.obj, p.off, n, kind, ty)
        if p.off.t:
            return self.sym_cell_load(p, n, kind, ty)
        v = self.cell_load(p.obj, p.off.c, n, kind, ty)
        return v

    def want_region(self, o):
        return not isinstance(o.size, int)

    def fresh_val(self, ty, name='undef'):
        ty = self.mod.tt.resolve(ty)
        if ty[0] == 'int': return self.fresh_int(ty[1], name)
        if ty[0] in ('double', 'float'): return self.fresh_real(name)
        if ty[0] == 'ptr': return ('undefptr',)
        if ty[0] == 'struct': return [self.fresh_val(t) for t in ty[1]]
        if ty[0] in ('arr', 'vec'): return [self.fresh_val(ty[2]) for _ in range(ty[1])]
        if ty[0] == 'fp80': return self.fresh_real(name)
        raise Unsupported('fresh %r' % (ty,))

    def conv(self, v, k, n, kind, ty):
        """stored value of kind k and n bytes read as type ty (same size)"""
        if kind == k:
            if kind == 'i' and ty[0] == 'int':
                w = ty[1]
                if w == 1:
                    if isinstance(v, (bool, z3.BoolRef)): return v
                    if isinstance(v, (int, z3.ExprRef)): return self.A.tobool1(v, 8)
                else:
                    if isinstance(v, (bool, z3.BoolRef)): return self.A.frombool(v, w)
            return v
        if kind == 'i' and k == 'p': return v
        if kind == 'i' and k == 'f': return v if not isinstance(v, Fraction) else self.f2bits(v, n)
        if kind == 'p' and k == 'i':
            if isinstance(v, (Ptr, FnPtr)): return v
            if isinstance(v, int) and v == 0: return NULL
            if is_sym(v): return ('undefptr',)
        if kind == 'f' and k == 'i':
            if isinstance(v, Special) or isinstance(v, Fraction) or (is_sym(v) and z3.is_real(v)): return v
            if isinstance(v, int):
                import struct
                f = struct.unpack('<d', struct.pack('<q', v))[0] if n == 8 else struct.unpack('<f', struct.pack('<i', v))[0]
                return self.fconst(f)
            if is_sym(v): return self.fresh_real('bits')
        raise Unsupported('reinterpretation of %s as %s' % (k, ty))

    def f2bits(self, v, n):
        import struct
        try:
            f = float(v)
            if Fraction(f) == v:
                return struct.unpack('<q', struct.pack('<d', f))[0] if n == 8 else struct.unpack('<i', struct.pack('<f', f))[0]
        except OverflowError:
            pass
        return v

    def cell_load(self, oid, off, n, kind, ty):
        o = self.st.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.conv(c[1], c[2], n, kind, ty)
        # overlapping pieces
        ov = [(k, v) for k, v in o.cells.items() if k < off + n and k + v[0] > off]
        if not ov:
            if o.zero: return self.zero_of(ty)
            v = self.fresh_val(ty)
            o = self.st.wobj(oid)
            o.cells[off] = (n, v, kind)
            return v
        if kind == 'i':
            # inside a larger int cell
            for k, (m, v, kk) in ov:
                if k <= off and k + m >= off + n and m > n:
                    if kk == 'f' and isinstance(v, Fraction): v = self.f2bits(v, m); kk = 'i'
                    if kk != 'i' or isinstance(v, (Ptr, Fraction, Special)) or (is_sym(v) and z3.is_real(v)):
                        raise Unsupported('partial read of a non integer cell')
                    x = self.A.extract(self.asint(v), 8 * m, off - k, n)
                    return self.A.tobool1(x, 8) if ty == ('int', 1) else x
            # concatenation
            parts = []
            pos = off
            zero = o.zero
            while pos < off + n:
                c = o.cells.get(pos)
                if c is None:
                    nxt = min([k for k, v in ov if k > pos] + [off + n])
                    parts.append((0 if zero else self.fresh_int(8 * (nxt - pos)), nxt - pos)); pos = nxt
                    continue
                m, v, kk = c
                if pos + m > off + n: raise Unsupported('overlapping read')
                if kk == 'f' and isinstance(v, Fraction): v = self.f2bits(v, m)
                if isinstance(v, (bool, z3.BoolRef)): v = self.A.frombool(v, 8 * m)
                if isinstance(v, (Ptr, FnPtr, Special, Fraction)) or (is_sym(v) and z3.is_real(v)): raise Unsupported('overlapping read of non integers')
                parts.append((self.asint(v), m)); pos += m
            return self.A.concat(parts)
        if o.zero and all(isinstance(v[1], int) and v[1] == 0 for k, v in ov): return self.zero_of(ty)
        raise Unsupported('overlapping read of type %r at %d of %s' % (ty, off, o.name))

    def zero_of(self, ty):
        ty = self.mod.tt.resolve(ty)
        if ty[0] == 'int': return 0 if ty[1] > 1 else False
        if ty[0] in ('double', 'float', 'fp80'): return Fraction(0)
        if ty[0] == 'ptr': return NULL
        if ty[0] == 'struct': return [self.zero_of(t) for t in ty[1]]
        if ty[0] in ('arr', 'vec'): return [self.zero_of(ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero %r' % (ty,))

    def cell_clear(self, o, off, n):
        for k in [k for k in o.cells if k < off + n and k + o.cells[k][0] > off]:
            m, v, kk = o.cells[k]
            if k >= off and k + m <= off + n:
                del o.cells[k]
            else:
                if kk == 'f' and isinstance(v, Fraction): v = self.f2bits(v, m); kk = 'i'
                if kk != 'i' or isinstance(v, (Ptr, FnPtr, Special)):  # what is left of a pointer or of a real number: unknown bytes
                    del o.cells[k]
                    if k < off: o.cells[k] = (off - k, self.fresh_int(8 * (off - k)), 'i')
                    if k + m > off + n: o.cells[off + n] = (k + m - off - n, self.fresh_int(8 * (k + m - off - n)), 'i')
                    continue
                v = self.asint(v)
                del o.cells[k]
                if k < off: o.cells[k] = (off - k, self.A.extract(v, 8 * m, 0, off - k), 'i')
                e = k + m
                if e > off + n: o.cells[off + n] = (e - off - n, self.A.extract(v, 8 * m, off + n - k, e - off - n), 'i')

    def store(self, p, ty, v):
        ty = self.mod.tt.resolve(ty)
        if ty[0] == 'struct':
            offs, _ = self.mod.tt.layout(ty)
            for o, t, x in zip(offs, ty[1], v): self.store(Ptr(p.obj, p.off.add(o)), t, x)
            return
        if ty[0] in ('arr', 'vec'):
            s = self.mod.tt.size(ty[2])
            for i in range(ty[1]): self.store(Ptr(p.obj, p.off.add(s * i)), ty[2], v[i])
            return
        if not isinstance(p, Ptr): raise Unsupported('store through a non-pointer %r' % (p,))
        n = self.mod.tt.size(ty)
        kind = self.kind_of(ty)
        if p.obj == 0:
            self.oblige(False, 'no null dereference')
            return
        o = self.st.mem[p.obj]
        self.bounds(o, p.off, n, 'write')
        if o.const: self.oblige(False, 'no write to constant memory')
        if ty == ('int', 1): v = self.A.frombool(v, 8)
        if o.arrays is not None or (p.off.t and self.want_region(o)):
            self.region_store(p.obj, p.off, n, kind, v, ty)
            return
        if p.off.t:
            self.sym_cell_store(p, n, kind, v, ty)
            return
        if self.probe_writes is not None: self.probe_writes.add((p.obj, p.off.c, n, kind))
        o = self.st.wobj(p.obj)
        self.cell_clear(o, p.off.c, n)
        o.cells[p.off.c] = (n, v, kind)

    # symbolic offset into a small fixed-size object: enumerate the aligned candidates
    def candidates(self, o, off, n):
        g = 0
        import math
        for i, co, e in off.t: g = math.gcd(g, co)
        r = off.c % g
        size = o.size if isinstance(o.size, int) else o.size.c
        return [x for x in range(r, size - n + 1, g)]

    def sym_cell_load(self, p, n, kind, ty):
        o = self.st.mem[p.obj]
        cand = self.candidates(o, p.off, n)
        if len(cand) > self.opt('max_candidates', 128):
            self.to_region(p.obj, p.off, n)
            return self.region_load(p.obj, p.off, n, kind, ty)
        e = self.lin_expr(p.off)
        if kind == 'p':
            # fork over the candidates
            if os.environ.get('VX_PTR'): print('PTR', p.off, o.name if hasattr(o,'name') else o, cand)
            raise Unsupported('pointer read at a symbolic offset')
        r = None
        for x in reversed(cand):
            v = self.cell_load(p.obj, x, n, kind, ty)
            v = self.zexpr(v, ty)
            r = v if r is None else z3.If(e == self.A.sym(x, 64), v, r)
        if r is None: raise PathDead()
        return r

    def zexpr(self, v, ty):
        if is_sym(v): return v
        if ty[0] == 'int': return tobool(v) if ty[1] == 1 else self.A.sym(self.asint(v), ty[1])
        if ty[0] in ('double', 'float'): return real(v)
        raise Unsupported('no expression for %r' % (v,))

    def sym_cell_store(self, p, n, kind, v, ty):
        o = self.st.mem[p.obj]
        cand = self.candidates(o, p.off, n)
        if len(cand) > self.opt('max_candidates', 128):
            self.to_region(p.obj, p.off, n)
            return self.region_store(p.obj, p.off, n, kind, v, ty)
        e = self.lin_expr(p.off)
        v = self.zexpr(v, ty)
        for x in cand:
            old = self.zexpr(self.cell_load(p.obj, x, n, kind, ty), ty)
            o = self.st.wobj(p.obj)
            self.cell_clear(o, x, n)
            o.cells[x] = (n, z3.If(e == self.A.sym(x, 64), v, old), kind)
            if self.probe_writes is not None: self.probe_writes.add((p.obj, x, n, kind))

    def to_region(self, oid, off, n):
        """turn a fixed-size object with homogeneous cells into an SMT array"""
        import math
        o = self.st.wobj(oid)
        g = 0
        for i, co, e in off.t: g = math.gcd(g, co)
        cells = dict(o.cells)
        o.cells = {}
        o.stride = g
        o.arrays = {}
        for k in sorted(cells):
            m, v, kd = cells[k]
            ty = ('int', 8 * m) if kd == 'i' else (('double',) if kd == 'f' else ('ptr',))
            self.region_store(oid, Lin(k), m, kd, v, ty, quiet=True)

    def idx_sort(self): return z3.BitVecSort(64) if self.A.name == 'bv' else z3.IntSort()

    def idx_const(self, i): return z3.BitVecVal(i, 64) if self.A.name == 'bv' else z3.IntVal(i)

    def region_access(self, oid, off, n, kind, ty):
        o = self.st.mem[oid]
        import math
        if o.arrays is None:
            o = self.st.wobj(oid)
            g = 0
            S = o.size if isinstance(o.size, Lin) else Lin(o.size)
            for i, co, e in S.t: g = math.gcd(g, co)
            if g == 0:
                for i, co, e in off.t: g = math.gcd(g, co)
            cells = o.cells
            o.cells = {}
            o.arrays = {}
            o.stride = g or n
            for k in sorted(cells):
                m, v, kd = cells[k]
                self.region_store(oid, Lin(k), m, kd, v, ('int', 8 * m) if kd == 'i' else (('double',) if kd == 'f' else ('ptr',)), quiet=True)
            o = self.st.mem[oid]
        s = o.stride
        if any(co % s for i, co, e in off.t):
            # coarser declared stride than used: refine when the region has homogeneous n-byte fields
            g = s
            for i, co, e in off.t: g = math.gcd(g, co)
            if not o.arrays and g >= n:
                o = self.st.wobj(oid)
                o.stride = s = g
            else:
                raise Unsupported('access at offset %r in a region of stride %d' % (off, s))
        f = off.c % s
        idx = Lin(off.c // s, tuple((i, co // s, e) for i, co, e in off.t))
        if f + n > s: raise Unsupported('access across region elements')
        a = o.arrays.get(f)
        if a is None:
            if any(k < f + n and k + v[0] > f for k, v in o.arrays.items()): raise Unsupported('mixed-size region access')
            o = self.st.wobj(oid)
            if kind == 'f': srt = z3.RealSort()
            elif kind == 'i': srt = self.A.sort(8 * n)
            else: raise Unsupported('region of pointers')
            if o.zero:
                z = z3.K(self.idx_sort(), z3.RealVal(0) if kind == 'f' else self.A.const(0, 8 * n))
            else:
                z = z3.Array(self.fresh_name('mem_%s' % o.name), self.idx_sort(), srt)
            o.arrays[f] = a = (n, kind, z)
        if a[0] != n: raise Unsupported('mixed-size region access')
        if a[1] != kind: raise Unsupported('mixed-kind region access')
        return f, self.A.sym(self.lin_expr(idx), 64), a

    def region_load(self, oid, off, n, kind, ty):
        f, idx, a = self.region_access(oid, off, n, kind, ty)
        v = z3.simplify(z3.Select(a[2], idx))
        if self.A.name == 'int' and kind == 'i':
            rng = self.region_range(a[2], n)
            if not z3.is_int_value(v):
                if v.get_id() not in self.A.bounds:
                    self.A.note(v, rng[0], rng[1])
                self.st.pc.append(z3.And(v >= rng[0], v <= rng[1]))
            else:
                v = v.as_long()
        if ty == ('int', 1): return self.A.tobool1(v, 8)
        return v

    def region_range(self, arr, n):
        return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)

    def region_store(self, oid, off, n, kind, v, ty, quiet=False):
        f, idx, a = self.region_access(oid, off, n, kind, ty)
        if kind == 'f':
            if isinstance(v, Special): v = self.fresh_real('inf')
            v = real(v)
        elif kind == 'i': v = self.A.sym(self.asint(v), 8 * n)
        o = self.st.wobj(oid)
        o.arrays[f] = (n, kind, z3.Store(a[2], idx, v))
        if self.probe_writes is not None and not quiet: self.probe_writes.add((oid, 'arr', f, n, kind, idx))

    def memcpy(self, d, s, n):
        if not is_sym(n):
            if n == 0: return
            if d.obj == 0 or s.obj == 0:
                self.oblige(False, 'no null dereference'); return
            so = self.st.mem[s.obj]; do = self.st.mem[d.obj]
            self.bounds(so, s.off, n, 'read'); self.bounds(do, d.off, n, 'write')
            if so.arrays is None and do.arrays is None and not s.off.t and not d.off.t:
                pieces = [(k, v) for k, v in so.cells.items() if k < s.off.c + n and k + v[0] > s.off.c]
                z = so.zero
                out = []
                for k, v in pieces:
                    if k < s.off.c or k + v[0] > s.off.c + n:
                        a = max(k, s.off.c); b = min(k + v[0], s.off.c + n)
                        out.append((a, (b - a, self.cell_load(s.obj, a, b - a, 'i', ('int', 8 * (b - a))), 'i')))
                    else: out.append((k, v))
                do = self.st.wobj(d.obj)
                self.cell_clear(do, d.off.c, n)
                cov = set()
                for k, v in out:
                    do.cells[k - s.off.c + d.off.c] = v
                    if self.probe_writes is not None: self.probe_writes.add((d.obj, k - s.off.c + d.off.c, v[0], v[2]))
                if z and not do.zero:
                    # materialise zero gaps
                    pos = 0
                    occ = sorted((k - s.off.c, v[0]) for k, v in out)
                    for k, m in occ + [(n, 0)]:
                        while pos < k:
                            q = min(8, k - pos) if pos % 8 == 0 else 1
                            if q not in (8, 4, 2, 1): q = 4 if q > 4 else 2 if q > 2 else 1
                            do.cells[d.off.c + pos] = (q, 0, 'i'); pos += q
                        pos = k + m
                return
            # element-wise through the region of either side
            r = so if so.arrays is not None else do
            if r.arrays is None:
                # symbolic offset into fixed cells: 8-byte words
                if n % 8 == 0 and n <= 64:
                    vals = []
                    for i in range(0, n, 8):
                        vals.append(None)
                raise Unsupported('memcpy with symbolic offset')
            st = r.stride
            for base in range(0, n, st):
                for f, (m, kind, _) in sorted(r.arrays.items()):
                    if base + f + m > n: continue
                    ty = ('int', 8 * m) if kind == 'i' else ('double',)
                    v = self.load(Ptr(s.obj, s.off.add(base + f)), ty)
                    self.store(Ptr(d.obj, d.off.add(base + f)), ty, v)
            if not r.arrays:
                raise Unsupported('memcpy of an untyped region')
            return
        # symbolic length
        if d.obj == 0 or s.obj == 0:
            self.oblige(n == self.A.sym(0, 64), 'no null dereference'); return
        so = self.st.mem[s.obj]; do = self.st.wobj(d.obj)
        ln = self.to_lin(n)
        for o, p, w in ((so, s, 'read'), (do, d, 'write')):
            S = o.size if isinstance(o.size, Lin) else Lin(o.size)
            a = self.A
            self.oblige(b_and(a.cmp('sge', self.lin_expr(p.off), 0, 64), a.cmp('sge', self.lin_expr(S.add(p.off, -1).add(ln, -1)), 0, 64)), 'memory access in bounds (%s)' % w)
        if self.probe: raise Unsupported('symbolic memcpy inside a cut loop')
        if so.arrays is None and not so.cells: return
        if so.arrays is None: raise Unsupported('symbolic memcpy from cells')
        if do.arrays is None:
            if do.cells: raise Unsupported('symbolic memcpy over cells')
            do.arrays = {}; do.stride = so.stride
        if do.stride != so.stride: raise Unsupported('memcpy between different strides')
        st = so.stride
        qd, qs, qn = self.lin_div(d.off, st), self.lin_div(s.off, st), self.lin_div(ln, st)
        if None in (qd, qs, qn): raise Unsupported('memcpy not a whole number of elements')
        for f, (m, kind, arr) in list(so.arrays.items()):
            old = do.arrays.get(f)
            if not qd.t and qd.c == 0 and not qs.t and qs.c == 0 and old is None:
                do.arrays[f] = (m, kind, arr); continue
            srt = arr.range()
            new = z3.Array(self.fresh_name('cpy'), self.idx_sort(), srt)
            k = z3.Const(self.fresh_name('k'), self.idx_sort())
            D, S_, N = (self.A.sym(self.lin_expr(x), 64) for x in (qd, qs, qn))
            inr = z3.And(k >= D, k < D + N)
            oldv = z3.Select(old[2], k) if old is not None else z3.Select(new, k)
            self.st.pc.append(z3.ForAll([k], z3.Select(new, k) == z3.If(inr, z3.Select(arr, k - D + S_), oldv), patterns=[z3.Select(new, k)]))
            do.arrays[f] = (m, kind, new)

    def memset(self, d, b, n):
        if is_sym(b): raise Unsupported('memset with symbolic byte')
        if d.obj == 0:
            self.oblige(n == 0 if not is_sym(n) else n == self.A.sym(0, 64), 'no null dereference'); return
        do = self.st.wobj(d.obj)
        if not is_sym(n):
            if n == 0: return
            self.bounds(do, d.off, n, 'write')
            if do.arrays is None and not d.off.t:
                if n == do.size and d.off.c == 0 and b == 0:
                    if self.probe_writes is not None:
                        for k, v in do.cells.items(): self.probe_writes.add((d.obj, k, v[0], v[2]))
                    do.cells = {}; do.zero = True; return
                pos = 0
                self.cell_clear(do, d.off.c, n)
                by = b & 255
                while pos < n:
                    q = 8 if n - pos >= 8 else 4 if n - pos >= 4 else 2 if n - pos >= 2 else 1
                    do.cells[d.off.c + pos] = (q, sgn(int.from_bytes(bytes([by] * q), 'little'), 8 * q), 'i')
                    if self.probe_writes is not None: self.probe_writes.add((d.obj, d.off.c + pos, q, 'i'))
                    pos += q
                return
            raise Unsupported('memset on a region')
        ln = self.to_lin(n)
        S = do.size if isinstance(do.size, Lin) else Lin(do.size)
        self.oblige(b_and(self.A.cmp('sge', self.lin_expr(d.off), 0, 64), self.A.cmp('sge', self.lin_expr(S.add(d.off, -1).add(ln, -1)), 0, 64)), 'memory access in bounds (write)')
        if b == 0 and not d.off.t and d.off.c == 0 and repr(S) == repr(ln):
            do.cells = {}; do.arrays = None; do.zero = True
            return
        raise Unsupported('memset of symbolic length')

    def malloc(self, n, name='heap'):
        if isinstance(n, PDiff): return Ptr(self.new_obj(n.lin, name))
        if is_sym(n):
            s = z3.simplify(n)
            if z3.is_int_value(s): n = s.as_long()
            elif z3.is_bv_value(s): n = s.as_signed_long()
        if not is_sym(n): return Ptr(self.new_obj(n, name))
        return Ptr(self.new_obj(self.to_lin(n), name))

    # ---------------------------------------------------------------- values
    def fconst(self, x):
        import math
        if math.isinf(x) or math.isnan(x): return Special(x)
        return Fraction(x)

    def val(self, fr, op, ty):
        k = op[0]
        if k == 'local': return fr.regs[op[1]]
        if k == 'int': return (bool(op[1]) if ty == ('int', 1) else sgn(op[1], ty[1]))
        if k == 'fp': return self.fconst(op[1])
        if k == 'null': return NULL
        if k == 'glob': return self.global_ptr(op[1])
        if k == 'undef': return self.fresh_val(ty)
        if k == 'zero': return self.zero_of(ty)
        if k == 'agg': return [self.val(fr, v, t) for t, v in op[1]]
        if k == 'cstr': return [sgn(b, 8) for b in op[1]]
        if k == 'gep':
            b = self.val(fr, op[2], ('ptr',))
            return self.gep(fr, op[1], b, op[3])
        if k == 'cast':
            v = self.val(fr, op[3], op[2])
            if op[1] in ('ptrtoint', 'bitcast', 'inttoptr', 'addrspacecast'): return v
            raise Unsupported('constant cast')
        if k == 'fp80': return self.fresh_real('fp80')
        raise Unsupported('operand %r' % (op,))

    def gep(self, fr, bt, base, idx):
        if isinstance(base, tuple) or isinstance(base, FnPtr): return base
        if not isinstance(base, Ptr): raise Unsupported('gep on %r' % (base,))
        off = base.off
        t = bt
        for n, (it, iv) in enumerate(idx):
            v = self.val(fr, iv, it)
            if isinstance(v, PDiff): v = self.lin_expr(v.lin)
            if is_sym(v) and it[1] < 64: v = self.A.sext(v, it[1], 64)
            if n == 0:
                off = off.add(self.to_lin(v).scale(self.mod.tt.size(t)))
            else:
                t = self.mod.tt.resolve(t)
                if t[0] == 'struct':
                    offs, _ = self.mod.tt.layout(t)
                    off = off.add(offs[v]); t = t[1][v]
                else:
                    t = t[2]
                    off = off.add(self.to_lin(v).scale(self.mod.tt.size(t)))
        return Ptr(base.obj, off)

    def global_ptr(self, name):
        if name in self.mod.funcs: return FnPtr(name)
        if name in self.gobj:
            i = self.gobj[name]
        else:
            i = self.obj_n
            self.obj_n += 1
            self.gobj[name] = i
        if i not in self.st.mem: self.init_global(name, i)
        return Ptr(i)

    def init_global(self, name, i):
        l = self.mod.globals.get(name)
        if l is None: raise Unsupported('unknown global ' + name)
        p = ir.P(ir.tokenize(l.split(', comdat')[0] if ', comdat' in l else l.split(', !')[0]))
        p.next(); p.next()
        ext = False; const = False
        words = {'private', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'external', 'dso_local', 'hidden', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global', 'extern_weak', 'linkonce',
                 'available_externally', 'thread_local', 'common', 'externally_initialized', 'protected', 'appending'}
        while p.peek()[1] in words or p.at('('):
            w = p.next()[1]
            if w in ('external', 'extern_weak', 'available_externally'): ext = True
            if w == 'constant': const = True
            if w == '(':
                p.next(); p.expect(')')
            if w == 'alias': break
        if p.at('alias'):
            p.next(); p.next(); p.expect(','); p.next(); v = p.next()
            raise Unsupported('alias')
        ty = ir.parse_type(p)
        try:
            size = self.mod.tt.size(ty)
        except ValueError:
            size = 1 << 20
        o = Obj(size, name)
        self.st.mem[i] = o
        self.st.owned.add(i)
        if not ext and not p.eof() and not p.at(','):
            try:
                v = ir.parse_value(p, ty)
            except ValueError as ex:
                raise Unsupported('initialiser of %s: %s' % (name, ex))
            if v[0] == 'zero': o.zero = True
            elif v[0] == 'undef': pass
            else:
                sv = self.probe_writes
                self.probe_writes = None
                self.store(Ptr(i), ty, self.val(None, v, ty))
                self.probe_writes = sv
        elif ext and name.startswith('@_ZTV'):
            pass
        self.st.mem[i].const = const

    # ---------------------------------------------------------------- execution
    def run_contract(self, fname, opts=None):
        st = State()
        self.st = st
        f = self.mod.funcs[fname]
        st.opts = dict(opts or {})
        self.push_call(st, f, [], None)
        work = [st]
        self.drive(work, lambda s: self.end_path(s))

    def end_path(self, s):
        self.paths += 1
        if s.outcome == 'throw' and not self.probe:
            self.st = s
            try:
                self.oblige(False, 'no exception escapes')
            except PathDead:
                pass

    def drive(self, work, on_end):
        while work:
            s = work.pop()
            self.st = s
            try:
                out = self.run(s)
            except PathDead:
                continue
            if out is None:
                on_end(s)
            else:
                work.extend(out)

    def run(self, st):
        """execute until the path ends (None) or forks (list of states)"""
        while True:
            if st.outcome is not None: return None
            fr = st.frames[-1]
            ins = fr.bb[fr.ip]
            self.steps += 1
            if self.steps % 5000 == 0 and time.time() - self.t0 > self.budget: raise StopAll('time budget')
            r = self.step(st, fr, ins)
            if r is not None:
                return r

    def push_call(self, st, f, args, call_ins):
        ir.ensure_body(f)
        self.executed.add(f.name)
        if len(st.frames) > 200: raise Unsupported('recursion too deep in ' + self.demname(f.name))
        fr = Frame(f)
        for (t, n), v in zip(f.params, args): fr.regs[n] = v
        fr.bb = f.blocks[f.entry]
        fr.prev = None
        fr.regs['#bb'] = f.entry
        fr.ret_to = call_ins
        st.frames.append(fr)
        return fr

    def do_return(self, st, v):
        fr = st.frames.pop()
        for a in fr.allocas:
            if a in st.mem: del st.mem[a]
        if len(st.frames) <= st.base:
            st.outcome = 'return'
            st.retval = v
            return
        caller = st.frames[-1]
        ins = caller.bb[caller.ip]
        return self.finish_call(st, caller, ins, v)

    def finish_call(self, st, fr, ins, v):
        if ins.res is not None: fr.regs[ins.res] = v
        if ins.op == 'invoke':
            return self.goto(st, fr, ins.a[2])
        fr.ip += 1

    def do_throw(self, st, exc):
        """unwind to the nearest landing pad"""
        st.exc = exc
        p, t = exc
        if isinstance(p, Ptr) and p.obj and p.obj in st.mem and not st.mem[p.obj].cells and self.derives(t, '@_ZTISt9exception'):
            # what() of the library exceptions: some text
            vt = Ptr(self.new_obj(32, 'vtable'))
            for k in range(4): self.store(Ptr(vt.obj, Lin(8 * k)), ('ptr',), FnPtr('@_ZNKSt9exception4whatEv'))
            st.wobj(p.obj)
            self.store(p, ('ptr',), vt)
        while len(st.frames) > st.base:
            fr = st.frames[-1]
            ins = fr.bb[fr.ip]
            if ins.op == 'invoke' and not fr.regs.get('#skip'):
                u = ins.a[3]
                # the landing pad may decline
                lp = [i for i in fr.f.blocks[u] if i.op == 'landingpad'][0]
                clauses, cleanup = lp.a
                sel = self.match(clauses, exc)
                if cleanup or sel is not None:
                    fr.regs['#exc'] = (exc, sel)
                    return self.goto(st, fr, u)
            st.frames.pop()
            for a in fr.allocas:
                if a in st.mem: del st.mem[a]
        st.outcome = 'throw'

    def match(self, clauses, exc):
        for kind, op in clauses:
            if kind == 'catch':
                if op[0] == 'null': return 1
                if op[0] == 'glob' and self.derives(exc[1], op[1]): return 1 + (hash(op[1]) % 1000003)
            else:
                return 1
        return None

    def derives(self, t, base):
        if t == base: return True
        if t is None: return False
        std = {'@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt12out_of_range': '@_ZTISt11logic_error',
               '@_ZTISt12length_error': '@_ZTISt11logic_error', '@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt8bad_cast': '@_ZTISt9exception'}
        if t in std: return self.derives(std[t], base)
        l = self.mod.globals.get(t, '')
        for x in re.findall(r'@_ZTI[\w.$]+', l):
            if x != t and self.derives(x, base): return True
        return False

    # -------- control flow with loops
    def goto(self, st, fr, target):
        src = fr.regs['#bb']
        f = fr.f
        L = ir.loops(f)
        # leaving loops
        while fr.loops and target not in fr.loops[-1].body:
            fr.loops.pop()
        back = False
        if target in L:
            if fr.loops and fr.loops[-1].header == target:
                back = src in L[target]
                if back:
                    lc = fr.loops[-1] = fr.loops[-1].copy()
                    if lc.mode == 'cut': return self.cut_backedge(st, fr, lc, src, target)
                    lc.count += 1
                    if lc.mode == 'unroll' and lc.snap is not None and st.opts.get('peel', 0) and st.ghost.get('cuts', 0) > lc.snap.ghost.get('cuts', 0) and self.can_cut(st):
                        return self.begin_cut(st, fr, lc)  # it contains loops that were cut
                    if lc.mode == 'probe':
                        # handled through outcome
                        self.enter_block(st, fr, src, target, phis_only=True)
                        st.outcome = 'backedge'
                        return None
                    if lc.count > self.opt('unroll', 130):
                        if lc.snap is not None and self.can_cut(st): return self.begin_cut(st, fr, lc)
                        raise Unsupported('loop in %s not unrolled within the limit' % self.demname(f.name))
            else:
                lc = LoopCtx(target, L[target], 'unroll')
                lc.snap = st.clone() if self.can_cut(st) else None
                if lc.snap is not None:
                    lc.info = (src,)
                    lc.snap.frames[-1].regs['#from'] = src
                fr.loops.append(lc)
        self.enter_block(st, fr, src, target)
        return None

    def can_cut(self, st):
        return (bool(st.invs) or st.opts.get('autocut', self.default_opts.get('autocut', 0))) and not st.opts.get('nocut', 0)

    def enter_block(self, st, fr, src, target, phis_only=False):
        bl = fr.f.blocks[target]
        vals = []
        n = 0
        for ins in bl:
            if ins.op != 'phi': break
            n += 1
            for v, l in ins.a:
                if l == src:
                    vals.append((ins.res, self.val(fr, v, ins.ty)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
        for r, v in vals: fr.regs[r] = v
        fr.regs['#bb'] = target
        fr.prev = src
        fr.bb = bl
        fr.ip = n

    def branch(self, st, fr, c, a, b):
        """c symbolic bool; a/b labels"""
        if isinstance(c, bool): return self.goto(st, fr, a if c else b)
        c = z3.simplify(c)
        if z3.is_true(c): return self.goto(st, fr, a)
        if z3.is_false(c): return self.goto(st, fr, b)
        if self.probe_cmps is not None: self.probe_cmps.append(c)
        fa = self.feasible(st, c)
        fb = self.feasible(st, z3.Not(c)) if fa else True
        if fa and not fb:
            st.pc.append(c)
            return self.goto(st, fr, a)
        if fb and not fa:
            st.pc.append(z3.Not(c))
            return self.goto(st, fr, b)
        # both possible: is it a loop exit of an unrolled loop?
        if fr.loops:
            for lc in fr.loops[-1:]:
                if lc.mode == 'unroll' and lc.snap is not None and ((a in lc.body) != (b in lc.body)):
                    if lc.count < st.opts.get('peel', 0) and self.simple_loop(fr.f, lc): continue
                    return self.begin_cut(st, fr, lc)
        s2 = st.clone()
        st.pc.append(c)
        s2.pc.append(z3.Not(c))
        out = []
        for s, t in ((st, a), (s2, b)):
            self.st = s
            try:
                r = self.goto(s, s.frames[-1], t)
            except PathDead:
                continue
            out.extend(r if r is not None else [s])
        self.st = st
        return out

    def simple_loop(self, f, lc):
        """a loop without inner loops and without calls of code: a few iterations are executed before it is cut"""
        key = (f.name, lc.header)
        c = getattr(self, 'simple_cache', None)
        if c is None: c = self.simple_cache = {}
        if key not in c:
            ok = not any(h != lc.header and h in lc.body for h in ir.loops(f))
            for b in lc.body:
                for ins in f.blocks[b]:
                    if ins.op in ('call', 'invoke') and ('@llvm.' not in ins.text and '__glibcxx_assert' not in ins.text and '__assert' not in ins.text): ok = False
            c[key] = ok
        return c[key]

    # -------- loop cutting
    def header_slots(self, f, header):
        return [i for i in f.blocks[header] if i.op == 'phi']

    def slot_val(self, st, fr, slot):
        k = slot[0]
        if k == 'phi': return fr.regs.get(slot[1])
        if k == 'cell':
            _, oid, off, n, kind = slot
            if oid not in st.mem: return None
            o = st.mem[oid]
            c = o.cells.get(off)
            if c is not None and c[0] == n: return c[1]
            if c is None and o.zero and not any(kk < off + n and kk + v[0] > off for kk, v in o.cells.items()): return 0 if kind == 'i' else (Fraction(0) if kind == 'f' else NULL)
            return None
        if k == 'arr':
            _, oid, fo, n, kind = slot
            o = st.mem.get(oid)
            if o is None or o.arrays is None or fo not in o.arrays: return None
            return o.arrays[fo][2]

    def slot_w(self, slot, phis):
        if slot[0] == 'phi': return phis[slot[1]].ty
        if slot[0] == 'cell':
            _, oid, off, n, kind = slot
            return ('int', 8 * n) if kind == 'i' else (('double',) if kind == 'f' else ('ptr',))
        return None

    def probe_run(self, st0, frdepth):
        """run the loop body once from state st0 (already positioned in the header block); collect states reaching the back edge"""
        backs = []
        sv = (self.probe, self.probe_writes, self.probe_cmps, self.st)
        self.probe += 1
        self.probe_writes = set()
        self.probe_cmps = []
        s0 = st0.clone()
        s0.frames[-1].loops[-1] = s0.frames[-1].loops[-1].copy()
        s0.frames[-1].loops[-1].mode = 'probe'
        nl, hdr = len(s0.frames[-1].loops), s0.frames[-1].loops[-1].header
        work = [s0]
        try:
            while work:
                s = work.pop()
                self.st = s
                try:
                    out = self.run_probe(s, frdepth, nl, hdr)
                except PathDead:
                    continue
                if out is None:
                    if s.outcome == 'backedge' and len(s.frames) == frdepth: backs.append(s)
                else:
                    work.extend(out)
            return backs, self.probe_writes, self.probe_cmps
        finally:
            self.probe, self.probe_writes, self.probe_cmps, self.st = sv

    def run_probe(self, st, depth, nl, hdr):
        while True:
            if st.outcome is not None: return None
            fr = st.frames[-1]
            if len(st.frames) < depth:
                st.outcome = 'left'; return None
            if len(st.frames) == depth and (len(fr.loops) < nl or fr.loops[nl - 1].header != hdr or fr.loops[nl - 1].mode != 'probe'):
                st.outcome = 'left'; return None
            ins = fr.bb[fr.ip]
            self.steps += 1
            r = self.step(st, fr, ins)
            if r is not None: return r

    def step_const(self, a, b, ty):
        """constant c with b == a + c, or None"""
        ty = self.mod.tt.resolve(ty)
        if ty[0] == 'int' and ty[1] > 1:
            if isinstance(a, (Ptr, FnPtr, Fraction)) or isinstance(b, (Ptr, FnPtr, Fraction)) or isinstance(a, tuple) or isinstance(b, tuple): return None
            a, b = self.asint(a), self.asint(b)
            if not is_sym(a) and not is_sym(b): return b - a
            d = z3.simplify(self.A.sym(b, ty[1]) - self.A.sym(a, ty[1]))
            if z3.is_int_value(d): return d.as_long()
            if z3.is_bv_value(d): return d.as_signed_long()
            return None
        if ty[0] == 'ptr':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                d = b.off.add(a.off, -1)
                if not d.t: return d.c
            return None
        if ty[0] == 'double':
            return None
        return None

    def begin_cut(self, st, fr, lc):
        """restart the loop from its entry snapshot, with an invariant"""
        if os.environ.get("VX_CUT"): print("begin", lc.header, "probe", self.probe, [(l.header,l.mode) for l in st.frames[-1].loops], len(st.frames), flush=True)
        snap = lc.snap
        header = lc.header
        done = getattr(self, 'cut_done', None)
        if done is None: done = self.cut_done = {}
        if id(snap) in done: raise PathDead()  # this entry of the loop is already being explored with an invariant
        done[id(snap)] = snap
        s = snap.clone()
        s.pc = list(s.pc)
        s.ghost['cuts'] = s.ghost.get('cuts', 0) + 1
        self.st = s
        f = s.frames[-1].f
        src = s.frames[-1].regs['#from']
        nlc = LoopCtx(header, lc.body, 'cut')
        s.frames[-1].loops.append(nlc)
        self.enter_block(s, s.frames[-1], src, header)
        depth = len(s.frames)
        phis = {i.res: i for i in self.header_slots(f, header)}
        self.cut_names = getattr(self, 'cut_names', set())
        self.cut_names.add(self.demname(f.name))
        # A: one iteration from the entry state
        backs, W, _ = self.probe_run(s, depth)
        slots = {}
        for r in phis: slots[('phi', r)] = None

        def add_writes(W):
            ch = False
            for w in W:
                if w[0] not in s.mem: continue  # allocated inside the loop
                sl = ('arr', w[0], w[2], w[3], w[4]) if w[1] == 'arr' else ('cell', w[0], w[1], w[2], w[3])
                if sl[0] == 'cell' and s.mem[w[0]].arrays is not None:
                    continue
                if sl not in slots:
                    slots[sl] = None; ch = True
            return ch

        add_writes(W)
        entry = {}
        lock = {}

        def read_entry():
            for sl in slots:
                if sl in entry: continue
                if sl[0] == 'arr' and s.mem[sl[1]].arrays is None or sl[0] == 'arr' and sl[2] not in s.mem[sl[1]].arrays:
                    # materialise
                    ss = self.st
                    self.st = s
                    self.region_access(sl[1], Lin(sl[2]), sl[3], sl[4], None)
                    self.st = ss
                if sl[0] == 'cell' and self.slot_val(s, s.frames[-1], sl) is None:
                    ss = self.st; self.st = s
                    _, oid, off, n, kind = sl
                    v = self.cell_load(oid, off, n, kind, self.slot_w(sl, phis))
                    o = s.wobj(oid)
                    self.cell_clear(o, off, n)
                    o.cells[off] = (n, v, kind)
                    self.st = ss
                entry[sl] = self.slot_val(s, s.frames[-1], sl)

        read_entry()
        for sl in slots:
            if sl[0] == 'arr': lock[sl] = None; continue
            ds = set()
            for b in backs:
                v = self.slot_val(b, b.frames[-1], sl)
                ds.add(self.step_const(entry[sl], v, self.slot_w(sl, phis)) if v is not None else None)
            if os.environ.get('VX_CUT') == '2': print('  A', sl, ds, [str(self.slot_val(b, b.frames[-1], sl))[:60] for b in backs[:2]])
            lock[sl] = ds.pop() if len(ds) == 1 else None
        # B: havoc until the modified set and lock-step claims are stable
        for rnd in range(12):
            H = s.clone()
            self.st = H
            hf = H.frames[-1]
            kx = self.fresh_int(64, 'iter')
            H.pc.append(self.A.sym(kx, 64) >= self.A.sym(0, 64))
            H.pc.append(self.A.sym(kx, 64) < self.A.sym(1 << 48, 64))
            if self.A.name == 'int': self.A.note(kx, 0, 1 << 48)
            hv = {}
            for sl in slots:
                ty = self.slot_w(sl, phis)
                e0 = entry[sl]
                if sl[0] == 'arr':
                    o = H.wobj(sl[1])
                    arr = z3.Array(self.fresh_name('havoc'), self.idx_sort(), z3.RealSort() if sl[4] == 'f' else self.A.sort(8 * sl[3]))
                    o.arrays[sl[2]] = (sl[3], sl[4], arr)
                    hv[sl] = arr
                    continue
                tt = self.mod.tt.resolve(ty)
                if lock[sl] is not None:
                    c = lock[sl]
                    if tt[0] == 'ptr': v = Ptr(e0.obj, e0.off.add(self.to_lin(kx).scale(c)))
                    else:
                        w = tt[1]
                        kk = kx if w == 64 else (kx if self.A.name == 'int' else z3.Extract(w - 1, 0, kx))
                        v = z3.simplify(self.A.sym(self.asint(e0), w) + self.A.sym(c, w) * kk) if c else e0
                        if c and self.A.name == 'int':
                            # machine value: stays in range because every step is checked for wrap-around
                            H.pc.append(z3.And(v >= -(1 << (w - 1)), v < (1 << (w - 1))))
                            self.A.note(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
                else:
                    if tt[0] == 'ptr':
                        if not isinstance(e0, Ptr): v = None  # not initialised before the loop: any use before it is written is an error
                        elif all(isinstance(self.slot_val(b, b.frames[-1], sl), Ptr) and self.slot_val(b, b.frames[-1], sl).obj == e0.obj for b in backs) and e0.obj and backs:
                            import math
                            g = 0
                            for b in backs:
                                d = self.slot_val(b, b.frames[-1], sl).off.add(e0.off, -1)
                                g = math.gcd(g, d.c)
                                for i, co, e in d.t: g = math.gcd(g, co)
                            q = self.fresh_int(64, 'poff')
                            v = Ptr(e0.obj, e0.off.add(self.to_lin(q).scale(g or 1)))
                        else: raise Unsupported('loop-carried pointer')
                    else: v = self.fresh_val(ty, 'havoc')
                hv[sl] = v
                if sl[0] == 'phi': hf.regs[sl[1]] = v
                else:
                    o = H.wobj(sl[1])
                    self.cell_clear(o, sl[2], sl[3])
                    o.cells[sl[2]] = (sl[3], v, sl[4])
            backs, W, cmps = self.probe_run(H, depth)
            again = add_writes(W)
            read_entry()
            for sl in slots:
                if sl not in lock: lock[sl] = None
            for sl in list(lock):
                if lock[sl] is None or sl not in hv: continue
                for b in backs:
                    v = self.slot_val(b, b.frames[-1], sl)
                    if v is None or self.step_const(hv[sl], v, self.slot_w(sl, phis)) != lock[sl]:
                        lock[sl] = None; again = True; break
            if not again: break
        else:
            raise Unsupported('loop summarisation did not converge')
        # array frame: a region modified only through indices
        awr = {}
        for w in W:
            if w[1] == 'arr' and w[0] in s.mem: awr.setdefault(('arr', w[0], w[2], w[3], w[4]), []).append(w[5])
        # C: Houdini
        subs_src = [kx] + [hv[sl] for sl in slots if is_sym(hv[sl]) and lock[sl] is None]
        subs_slots = [sl for sl in slots if is_sym(hv[sl]) and lock[sl] is None]
        ptrq = {}
        hsyms = set()

        def zv(v, sl):
            ty = self.slot_w(sl, phis)
            return v if is_sym(v) else (self.zexpr(v, self.mod.tt.resolve(ty)))

        def subst_fn(pairs):
            n = len(pairs)
            fr_ = (z3.Ast * n)(*[x.as_ast() for x, y in pairs])
            to_ = (z3.Ast * n)(*[y.as_ast() for x, y in pairs])
            for x, y in pairs:
                if not x.sort().eq(y.sort()): raise Unsupported('loop state of changing sort')
            cache = {}

            def f(e, keep=(pairs,)):
                r = cache.get(e.get_id())
                if r is None: r = cache[e.get_id()] = z3.z3._to_expr_ref(z3.Z3_substitute(e.ctx.ref(), e.as_ast(), n, fr_, to_), e.ctx)
                return r
            return f

        entry_fn = subst_fn([(kx, self.A.sym(0, 64))] + [(hv[sl], zv(entry[sl], sl) if sl[0] != 'arr' else entry[sl]) for sl in subs_slots])
        back_fns = {}

        def at_entry(e): return entry_fn(e)

        def at_back(e, b):
            fn = back_fns.get(id(b))
            if fn is None:
                m = [(kx, kx + self.A.sym(1, 64))]
                for sl in subs_slots:
                    v = self.slot_val(b, b.frames[-1], sl)
                    m.append((hv[sl], zv(v, sl) if sl[0] != 'arr' else v))
                fn = back_fns[id(b)] = subst_fn(m)
            return fn(e)

        Hn = self.fresh_n
        cands = []
        seen = set()

        def addc(e):
            e = z3.simplify(e)
            if z3.is_true(e) or z3.is_false(e): return
            if e.get_id() in seen: return
            seen.add(e.get_id()); self.keep.append(e)
            cands.append(e)

        ents = {sl: entry[sl] for sl in slots}
        pre_syms = self.syms_of_pc(s)
        okset = {x.get_id() for x in subs_src}
        for c in cmps:
            for (x, y) in self.cmp_pairs(c):
                vs = self.vars_of(x) | self.vars_of(y)
                if not any(v in okset for v in vs): continue
                if not all(v in okset or self.var_index(v) <= Hn_limit(self, kx) for v in vs): continue
                addc(x <= y); addc(x >= y)
                if z3.is_int(x) or z3.is_bv(x):
                    one = self.A.sym(1, x.size() if z3.is_bv(x) else 64)
                    addc(x + one <= y); addc(y + one <= x)
        for sl in subs_slots:
            v = hv[sl]
            if sl[0] == 'arr':
                # untouched outside the lock-step window
                ix = awr.get(sl)
                if ix:
                    for e in ix[:3]:
                        vs = self.vars_of(e)
                        if not all(v2 in okset or self.var_index(v2) <= Hn_limit(self, kx) for v2 in vs): continue
                        e0 = at_entry(e)
                        j = z3.Const(self.fresh_name('j'), self.idx_sort())
                        addc(z3.ForAll([j], z3.Implies(z3.Or(j < e0, j >= e), z3.Select(v, j) == z3.Select(entry[sl], j)), patterns=[z3.Select(v, j)]))
                        addc(z3.ForAll([j], z3.Implies(z3.Or(j > e0, j <= e), z3.Select(v, j) == z3.Select(entry[sl], j)), patterns=[z3.Select(v, j)]))
                continue
            if z3.is_bool(v):
                addc(v); addc(z3.Not(v)); continue
            e0 = zv(entry[sl], sl)
            addc(v >= e0); addc(v <= e0)
            zero = z3.RealVal(0) if z3.is_real(v) else self.A.sym(0, v.size() if z3.is_bv(v) else 64)
            addc(v >= zero); addc(v <= zero)
            if not z3.is_real(v):
                # small multiples of the iteration count
                if z3.is_int(v):
                    addc(v <= e0 + kx); addc(v >= e0 - kx)
        # entry filter
        def filt(pc_of, img, cands):
            """candidates whose image is implied; all at once, dropping those that a counter-model falsifies"""
            cands = list(cands)
            images = {e.get_id(): img(e) for e in cands}
            while cands:
                if time.time() - self.t0 > self.budget: raise StopAll('time budget')
                self.nq += 1
                conj = z3.And(*[images[e.get_id()] for e in cands])
                r = self.inc_query(pc_of(cands), z3.Not(conj), 1.0)
                if r == 'unsat': return cands
                keep = cands
                if r == 'sat' and self.last_model is not None:
                    mdl = self.last_model
                    keep = [e for e in cands if not z3.is_false(mdl.eval(images[e.get_id()], model_completion=True))]
                if len(keep) == len(cands):
                    keep = [e for e in cands if self.query(pc_of(cands), z3.Not(images[e.get_id()]), 2.0) == 'unsat']
                    if len(keep) == len(cands): return cands
                cands = keep
            return cands

        if os.environ.get('VX_CUT'): print('cut', self.short(f.name), header, 'body', len(lc.body), 'slots', len(slots), 'cands', len(cands), 'backs', len(backs), 'probe', self.probe, flush=True)
        if os.environ.get('VX_CUT') == '2':
            for sl in slots: print('   ', sl, 'lock', lock[sl], 'entry', str(entry[sl])[:60], [str(self.slot_val(b, b.frames[-1], sl))[:60] for b in backs[:2]])
        tq = time.time()
        cands = filt(lambda c: s.pc, at_entry, cands)
        ch = True
        while ch and cands:
            ch = False
            for b in backs:
                n0 = len(cands)
                cands = filt(lambda c: b.pc + c, lambda e: at_back(e, b), cands)
                if len(cands) < n0: ch = True
        self.solver_time += time.time() - tq
        # harness invariants
        H2 = H
        self.st = s
        H2.pc = list(H.pc) + cands
        exits = []
        rotate = not self.probe and s.opts.get('peel', 0)
        if not self.probe:
            if rotate: conds, exits = self.header_exits(s, header)
            else: conds = [[]]
            for C in conds:
                s1 = s.clone(); s1.pc = list(s.pc) + C
                for n, iv in enumerate(s.invs):
                    self.st = s1
                    c = self.call_bool(s1, iv)
                    self.oblige(c, 'loop invariant %d established (%s)' % (n, self.short(f.name)))
        for iv in s.invs:
            self.st = H2
            c = self.call_bool(H2, iv)
            H2.pc.append(tobool(c))
        nlc2 = H2.frames[-1].loops[-1] = H2.frames[-1].loops[-1].copy()
        nlc2.mode = 'cut'
        nlc2.info = {'cands': len(cands), 'lock': sum(1 for x in lock.values() if x is not None)}
        self.st = H2
        self.loops_cut = getattr(self, 'loops_cut', 0) + (0 if self.probe else 1)
        if self.probe and self.probe_writes is not None:
            for sl in slots:
                if sl[0] == 'cell': self.probe_writes.add((sl[1], sl[2], sl[3], sl[4]))
                if sl[0] == 'arr': self.probe_writes.add((sl[1], 'arr', sl[2], sl[3], sl[4], self.fresh_int(64)))
        if rotate:
            stay = []
            self.header_exits(H2, header, stay)
            return stay + exits
        return [H2]

    def header_exits(self, st, header, stay=None):
        """run the test at the head of a loop: (path conditions under which the body is entered, states that leave the loop);
        the states that enter the body are appended to stay"""
        s0 = st.clone()
        depth, nl = len(s0.frames), len(s0.frames[-1].loops)
        work, conds, exits = [s0], [], []
        self.probe_cmps, sv = None, self.probe_cmps
        while work:
            s = work.pop()
            self.st = s
            while True:
                fr = s.frames[-1]
                if s.outcome is not None or len(s.frames) < depth or len(s.frames) == depth and len(fr.loops) < nl:
                    exits.append(s); break
                if len(s.frames) == depth and fr.regs['#bb'] != header:
                    conds.append(s.pc[len(st.pc):])
                    if stay is not None: stay.append(s)
                    break
                self.steps += 1
                try: out = self.step(s, fr, fr.bb[fr.ip])
                except PathDead: break
                if out is not None:
                    work.extend(out); break
        self.probe_cmps = sv
        return conds, exits

    def short(self, n):
        d = self.demname(n)
        return re.sub(r'<.*', '', d.split('(')[0])[-60:]

    def cut_backedge(self, st, fr, lc, src, target):
        if any(l.mode == 'probe' for l in fr.loops[:-1]) or self.probe:
            st.outcome = 'dead'
            raise PathDead()
        self.enter_block(st, fr, src, target)
        rotate = st.opts.get('peel', 0)
        exits = []
        if rotate: conds, exits = self.header_exits(st, target)
        else: conds = [[]]
        for C in conds:
            s1 = st.clone(); s1.pc = list(st.pc) + C
            for n, iv in enumerate(st.invs):
                self.st = s1
                c = self.call_bool(s1, iv)
                self.oblige(c, 'loop invariant %d preserved (%s)' % (n, self.short(fr.f.name)))
        if conds: self.paths += 1
        if exits: return exits
        raise PathDead()

    def syms_of_pc(self, s): return None

    def vars_of(self, e):
        out = set()
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
                self.varidx = getattr(self, 'varidx', {})
                m = re.search(r'!(\d+)$', x.decl().name())
                self.varidx[x.get_id()] = int(m.group(1)) if m else 0
                self.keep.append(x)
            if z3.is_quantifier(x): stack.append(x.body())
            else: stack.extend(x.children())
        return out

    def var_index(self, i): return self.varidx.get(i, 0)

    def cmp_pairs(self, c):
        out = []
        st = [c]
        while st:
            x = st.pop()
            k = x.decl().kind() if z3.is_app(x) else None
            if k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR): st.extend(x.children()); continue
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGT):
                a, b = x.arg(0), x.arg(1)
                if z3.is_int(a) or z3.is_real(a) or z3.is_bv(a): out.append((a, b))
        return out

    def call_bool(self, st, iv):
        fn, ctx = iv
        return self.call_merge(st, fn, [ctx])

    def call_merge(self, st, fn, args, extra=None, keep_defs=True):
        """run a pure function to completion and merge its boolean result over all paths"""
        f = self.mod.funcs[fn.name]
        s0 = st.clone()
        s0.base = len(s0.frames)
        n0 = len(s0.pc)
        if extra is not None: s0.pc.append(extra)
        n1 = len(s0.pc)
        s0.invs = []
        s0.opts = dict(s0.opts)
        s0.opts['nocut'] = 1
        sv = self.st
        self.st = s0
        self.push_call(s0, f, args, None)
        res = []

        svp = (self.probe_writes, self.probe_cmps)
        self.probe_writes = None
        self.probe_cmps = None

        def end(s):
            if s.outcome == 'throw': raise Unsupported('exception inside a specification')
            res.append((s.pc[n1:], s.retval))

        self.drive([s0], end)
        self.probe_writes, self.probe_cmps = svp
        self.st = sv
        if len(res) == 1:
            pcs, r = res[0]
            # defining constraints of fresh names created inside are kept
            if extra is None: st.pc.extend(pcs)
            return r if extra is None else b_or(b_not(z3.And(*pcs)), r) if pcs else r
        ors = []
        for pcs, r in res:
            ors.append(z3.And(*(list(pcs) + [tobool(r)])))
        return z3.Or(*ors) if ors else True

    # -------- single instruction
    def step(self, st, fr, ins):
        op = ins.op
        R = fr.regs
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            R[ins.res] = self.binop(fr, ins)
            fr.ip += 1
            return None
        if op == 'icmp':
            r = self.icmp(fr, ins)
            if isinstance(r, list):  # fork on pointer identity (unused)
                return r
            R[ins.res] = r
            fr.ip += 1
            return None
        if op == 'br':
            if ins.a[0] is None: return self.goto(st, fr, ins.a[1])
            return self.branch(st, fr, self.val(fr, ins.a[0], ('int', 1)), ins.a[1], ins.a[2])
        if op == 'load':
            p = self.val(fr, ins.a[0], ('ptr',))
            if isinstance(p, tuple): raise Unsupported('load through an undefined pointer in ' + self.where())
            R[ins.res] = self.load(p, ins.ty)
            fr.ip += 1
            return None
        if op == 'store':
            p = self.val(fr, ins.a[1], ('ptr',))
            v = self.val(fr, ins.a[0], ins.ty)
            if isinstance(p, tuple): raise Unsupported('store through an undefined pointer in ' + self.where())
            self.store(p, ins.ty, v)
            fr.ip += 1
            return None
        if op == 'getelementptr':
            R[ins.res] = self.gep(fr, ins.ty, self.val(fr, ins.a[0], ('ptr',)), ins.a[1])
            fr.ip += 1
            return None
        if op == 'alloca':
            n = self.val(fr, ins.a[0], ('int', 64))
            i = self.new_obj(self.mod.tt.size(ins.ty) * n if not is_sym(n) else self.to_lin(n).scale(self.mod.tt.size(ins.ty)), ins.res)
            fr.allocas.append(i)
            R[ins.res] = Ptr(i)
            fr.ip += 1
            return None
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins)
        if op == 'ret':
            v = self.val(fr, ins.a[0], ins.ty) if ins.a[0] is not None else None
            return self.do_return(st, v)
        if op == 'select':
            c, a, b, ct = ins.a
            c = self.val(fr, c, ct)
            if ct[0] == 'vec': raise Unsupported('vector select')
            x, y = self.val(fr, a, ins.ty), self.val(fr, b, ins.ty)
            if is_sym(c):
                c = z3.simplify(c)
                if z3.is_true(c): c = True
                elif z3.is_false(c): c = False
            for arm, here in ((a, c), (b, b_not(c))):
                pend = R.get('pend ' + str(arm[1])) if arm[0] == 'local' else None
                if pend is not None: self.oblige(b_or(b_not(here), pend), 'float to integer conversion in range')
            if isinstance(c, bool):
                R[ins.res] = x if c else y
                fr.ip += 1
                return None
            ty = self.mod.tt.resolve(ins.ty)
            if ty[0] == 'int' and ty[1] > 1 and not isinstance(x, (Ptr, FnPtr, tuple)) and not isinstance(y, (Ptr, FnPtr, tuple)):
                x, y = self.asint(x), self.asint(y)
                R[ins.res] = z3.If(c, self.A.sym(x, ty[1]), self.A.sym(y, ty[1]))
                fr.ip += 1
                return None
            if ty == ('int', 1):
                R[ins.res] = z3.If(c, tobool(x), tobool(y))
                fr.ip += 1
                return None
            if ty[0] in ('double', 'float') and not isinstance(x, Special) and not isinstance(y, Special):
                R[ins.res] = z3.If(c, real(x), real(y))
                fr.ip += 1
                return None
            # pointers: same object with different offsets can merge, otherwise fork
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and self.opt('ptrite', 0):
                pass
            return self.fork_value(st, fr, ins, [(c, x), (z3.Not(c), y)])
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'freeze', 'addrspacecast'):
            R[ins.res] = self.cast(fr, ins)
            fr.ip += 1
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            R[ins.res] = self.fop(fr, ins)
            fr.ip += 1
            return None
        if op == 'fcmp':
            R[ins.res] = self.fcmp(fr, ins)
            fr.ip += 1
            return None
        if op == 'switch':
            return self.switch(st, fr, ins)
        if op == 'extractvalue':
            v = self.val(fr, ins.a[0], ins.ty)
            for i in ins.a[1]: v = v[i]
            R[ins.res] = v
            fr.ip += 1
            return None
        if op == 'insertvalue':
            v = self.val(fr, ins.a[0], ins.ty)
            e = self.val(fr, ins.a[1], ins.a[3])
            v = list(v)
            cur = v
            for i in ins.a[2][:-1]:
                cur[i] = list(cur[i]); cur = cur[i]
            cur[ins.a[2][-1]] = e
            R[ins.res] = v
            fr.ip += 1
            return None
        if op == 'unreachable':
            self.oblige(False, 'unreachable code is not reached')
            raise PathDead()
        if op == 'landingpad':
            exc, sel = R['#exc']
            R[ins.res] = [exc[0], sel if sel is not None else 0]
            fr.ip += 1
            return None
        if op == 'resume':
            v = self.val(fr, ins.a[0], ins.ty)
            exc = st.exc
            st.frames.pop()
            for a in fr.allocas:
                if a in st.mem: del st.mem[a]
            if len(st.frames) <= st.base:
                st.outcome = 'throw'
                return None
            return self.do_throw_from_callee(st, exc)
        if op == 'fence':
            fr.ip += 1
            return None
        if op == 'extractelement':
            v = self.val(fr, ins.a[0], ins.ty)
            i = self.val(fr, ins.a[1], ('int', 64))
            R[ins.res] = v[i]
            fr.ip += 1
            return None
        if op == 'insertelement':
            v = list(self.val(fr, ins.a[0], ins.ty))
            i = self.val(fr, ins.a[2], ('int', 64))
            v[i] = self.val(fr, ins.a[1], ins.a[3])
            R[ins.res] = v
            fr.ip += 1
            return None
        raise Unsupported('instruction %s in %s' % (ins.text[:120], self.where()))

    def do_throw_from_callee(self, st, exc):
        return self.do_throw(st, exc)

    def fork_value(self, st, fr, ins, alts):
        """assign ins.res by cases and continue at the next instruction"""
        out = []
        live = []
        for c, v in alts:
            if isinstance(c, bool):
                if c: live.append((None, v))
            elif self.feasible(st, c): live.append((c, v))
        for n, (c, v) in enumerate(live):
            s = st if n == len(live) - 1 else st.clone()
            if c is not None: s.pc.append(c)
            f2 = s.frames[-1]
            f2.regs[ins.res] = v
            self.st = s
            r = None
            if ins.op == 'invoke': r = self.goto(s, f2, ins.a[2])
            else: f2.ip += 1
            out.extend(r if r is not None else [s])
        if not out: raise PathDead()
        return out

    def switch(self, st, fr, ins):
        c, d, cases = ins.a
        w = ins.ty[1]
        v = self.val(fr, c, ins.ty)
        v = self.asint(v)
        if not is_sym(v):
            for cv, l in cases:
                if sgn(cv[1], w) == v: return self.goto(st, fr, l)
            return self.goto(st, fr, d)
        out = []
        neg = []
        groups = {}
        for cv, l in cases:
            e = v == self.A.sym(sgn(cv[1], w), w)
            groups.setdefault(l, []).append(e)
            neg.append(z3.Not(e))
        alts = [(z3.Or(*es) if len(es) > 1 else es[0], l) for l, es in groups.items()] + [(z3.And(*neg), d)]
        live = [(c, l) for c, l in alts if self.feasible(st, c)]
        for n, (c, l) in enumerate(live):
            s = st if n == len(live) - 1 else st.clone()
            s.pc.append(c)
            self.st = s
            r = self.goto(s, s.frames[-1], l)
            out.extend(r if r is not None else [s])
        if not out: raise PathDead()
        return out

    def binop(self, fr, ins):
        ty = ins.ty
        if ty[0] == 'vec': raise Unsupported('vector arithmetic')
        w = ty[1]
        a, b = self.val(fr, ins.a[0], ty), self.val(fr, ins.a[1], ty)
        op = ins.op
        if w == 1: return self.A.bool_bin(op, a, b)
        if isinstance(a, (Ptr, PDiff)) or isinstance(b, (Ptr, PDiff)):
            r = self.ptr_arith(op, a, b, w)
            if r is not None: return r
            a, b = self.asint(a), self.asint(b)
        if isinstance(a, (Fraction, Special)) or isinstance(b, (Fraction, Special)) or (is_sym(a) and z3.is_real(a)) or (is_sym(b) and z3.is_real(b)):
            raise Unsupported('bit manipulation of a double')
        if isinstance(a, tuple) or isinstance(b, tuple): raise Unsupported('arithmetic on an undefined pointer')
        return self.A.bin(op, a, b, w, ins.flags)

    def ptr_arith(self, op, a, b, w):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj: return self.norm(PDiff(a.off.add(b.off, -1)))
            return None
        if op in ('add', 'sub'):
            sg = 1 if op == 'add' else -1
            if isinstance(a, Ptr) and a.obj and not isinstance(b, Ptr):
                return Ptr(a.obj, a.off.add(self.to_lin(b), sg))
            if isinstance(b, Ptr) and b.obj and op == 'add' and not isinstance(a, Ptr): return Ptr(b.obj, b.off.add(self.to_lin(a)))
            if isinstance(a, PDiff) or isinstance(b, PDiff):
                return self.norm(PDiff(self.to_lin(a).add(self.to_lin(b), sg)))
        if isinstance(a, PDiff):
            if op in ('ashr', 'lshr') and isinstance(b, int):
                q = self.lin_div(a.lin, 1 << b)
                if q is not None: return self.norm(PDiff(q))
            if op in ('sdiv', 'udiv') and isinstance(b, int) and b > 0:
                q = self.lin_div(a.lin, b)
                if q is not None: return self.norm(PDiff(q))
            if op == 'mul' and isinstance(b, int): return self.norm(PDiff(a.lin.scale(b)))
            if op == 'shl' and isinstance(b, int): return self.norm(PDiff(a.lin.scale(1 << b)))
        if isinstance(b, PDiff) and op == 'mul' and isinstance(a, int): return self.norm(PDiff(b.lin.scale(a)))
        if isinstance(a, Ptr) and op == 'and' and isinstance(b, int) and a.obj and not a.off.t:
            # alignment tests: objects are 16-aligned
            if 0 <= b < 16: return a.off.c & b
        return None

    def norm(self, d):
        return d.lin.c if not d.lin.t else d

    def icmp(self, fr, ins):
        pred, a, b = ins.a
        ty = ins.ty
        x, y = self.val(fr, a, ty), self.val(fr, b, ty)
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            return self.ptr_cmp(pred, x, y)
        if isinstance(x, tuple) or isinstance(y, tuple):
            return z3.Bool(self.fresh_name('undefcmp'))
        if ty == ('int', 1):
            if pred == 'eq': return b_not(self.A.bool_bin('xor', x, y))
            if pred == 'ne': return self.A.bool_bin('xor', x, y)
            raise Unsupported('i1 compare')
        if isinstance(x, PDiff) or isinstance(y, PDiff):
            l = self.to_lin(x).add(self.to_lin(y), -1)
            if pred in ('eq', 'ne') or self.A.name == 'int' and pred[0] == 's':
                # compare the difference with zero, dividing by the common factor
                import math
                g = l.c
                for i, co, e in l.t: g = math.gcd(g, co)
                g = abs(g)
                if g > 1: l = self.lin_div(l, g)
                return self.A.cmp(pred, self.lin_expr(l), 0, 64)
            x, y = self.asint(x), self.asint(y)
        if ty[0] == 'ptr': raise Unsupported('pointer comparison %r %r' % (x, y))
        return self.A.cmp(pred, self.asint(x), self.asint(y), ty[1])

    def ptr_cmp(self, pred, x, y):
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if isinstance(x, FnPtr) and isinstance(y, FnPtr): e = x.name == y.name
            else: e = False
            return e if pred == 'eq' else not e
        if isinstance(x, int): x = Ptr(0, Lin(x))
        if isinstance(y, int): y = Ptr(0, Lin(y))
        if isinstance(x, tuple) or isinstance(y, tuple): return z3.Bool(self.fresh_name('undefcmp'))
        if not (isinstance(x, Ptr) and isinstance(y, Ptr)): raise Unsupported('pointer comparison')
        if x.obj == y.obj:
            import math
            l = x.off.add(y.off, -1)
            g = l.c
            for i, co, e in l.t: g = math.gcd(g, co)
            g = abs(g)
            if g > 1: l = self.lin_div(l, g)
            if self.A.name == 'bv' and l.t and not pred in ('eq', 'ne'):
                # compare linear forms as exact integers is not expressible; use signed difference (offsets are < 2^48)
                pass
            p = pred if pred in ('eq', 'ne') else 's' + pred[1:]
            return self.A.cmp(p, self.lin_expr(l), 0, 64)
        if pred == 'eq': return False
        if pred == 'ne': return True
        # relational between different objects: unspecified but total
        nm = z3.Bool('addrlt!%d_%d' % (min(x.obj, y.obj), max(x.obj, y.obj)))
        lt = nm if x.obj < y.obj else z3.Not(nm)
        if x.obj == 0: lt = True
        if y.obj == 0: lt = False
        return lt if pred in ('ult', 'ule', 'slt', 'sle') else b_not(lt)

    def cast(self, fr, ins):
        op = ins.op
        ty = ins.ty
        sty = ins.a[1]
        v = self.val(fr, ins.a[0], sty)
        if op in ('freeze', 'addrspacecast'): return v
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, int): return Ptr(0, Lin(v))
            if op == 'inttoptr' and is_sym(v): raise Unsupported('inttoptr')
            if op == 'ptrtoint' and isinstance(v, Ptr) and v.obj == 0: return self.lin_expr(v.off)
            return v
        if op == 'bitcast':
            if sty[0] == 'int' and ty[0] in ('double',): return self.conv(v, 'i', 8, 'f', ty)
            if sty[0] == 'double' and ty[0] == 'int': return self.conv(v, 'f', 8, 'i', ty)
            if sty[0] == 'vec' or ty[0] == 'vec': raise Unsupported('vector bitcast')
            return v
        if op in ('zext', 'sext', 'trunc'):
            if ty[0] == 'vec': raise Unsupported('vector cast')
            if isinstance(v, (Ptr, tuple)): raise Unsupported('cast of pointer bits')
            v = self.asint(v)
            w, w2 = sty[1], ty[1]
            if w == 1:
                r = self.A.frombool(v, w2)
                if op == 'sext':
                    return (-r if not is_sym(r) else (z3.If(v, self.A.sym(-1, w2), self.A.sym(0, w2))))
                return r
            if w2 == 1: return self.A.tobool1(v, w)
            if op == 'zext': return self.A.zext(v, w, w2)
            if op == 'sext': return self.A.sext(v, w, w2)
            return self.A.trunc(v, w, w2)
        if op in ('sitofp', 'uitofp'):
            v = self.asint(v)
            if sty == ('int', 1):
                if isinstance(v, bool): return Fraction(int(v))
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            v = self.A.to_real(v, sty[1], op == 'sitofp')
            return self.single(v) if ty[0] == 'float' else v
        if op in ('fptosi', 'fptoui'):
            spec = self.spec_select(fr.f, ins)
            if isinstance(v, Special):
                if spec: fr.regs['pend ' + ins.res] = False
                else: self.oblige(False, 'float to integer conversion in range')
                return self.fresh_int(ty[1])
            if spec and self.A.name == 'int':
                # computed ahead of the selection that may discard it: the obligation is due where it is selected
                t = trunc_real(v)
                if is_sym(t):
                    w = ty[1]
                    lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if op == 'fptosi' else (0, 1 << w)
                    fr.regs['pend ' + ins.res] = z3.And(t >= lo, t < hi)
                    r = self.fresh_int(w)
                    self.st.pc.append(z3.Implies(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1))), r == t))
                    if op == 'fptoui': self.st.pc.append(z3.Implies(z3.And(t >= (1 << (w - 1)), t < (1 << w)), r == t - (1 << w)))
                    return r
            return self.A.from_real(v, ty[1], op == 'fptosi')
        if op == 'fptrunc' and ty[0] == 'float': return self.single(v)
        if op in ('fpext', 'fptrunc'):
            return v
        raise Unsupported(op)

    def single(self, v):
        """v rounded to single precision: exact for constants, otherwise any value within half a unit in the last place"""
        if isinstance(v, Special): return v
        if not is_sym(v):
            import struct
            try: return Fraction(struct.unpack('f', struct.pack('f', float(v)))[0])
            except OverflowError: return Special(float('inf') if v > 0 else float('-inf'))
        r = self.fresh_real('single')
        d = z3.If(v >= 0, v, -v) / z3.RealVal(1 << 24)
        self.st.pc.append(z3.And(r >= v - d, r <= v + d))
        return r

    def spec_select(self, f, ins):
        """is the only use of ins.res an arm of a select (a speculated computation)?"""
        k = id(ins)
        if k not in self.specc:
            pat = re.compile(r'(?<![\w.%])' + re.escape(ins.res) + r'(?![\w.])')
            uses = [i for b in f.blocks.values() for i in b if i is not ins and pat.search(i.text)]
            self.specc[k] = len(uses) == 1 and uses[0].op == 'select'
        return self.specc[k]

    def fop(self, fr, ins):
        op = ins.op
        if ins.ty[0] == 'vec': raise Unsupported('vector float')
        a = self.val(fr, ins.a[0], ins.ty)
        if op == 'fneg':
            if isinstance(a, Special): return Special(None if a.f is None else -a.f)
            return -a
        b = self.val(fr, ins.a[1], ins.ty)
        r = self.farith(op, a, b)
        rw = self.st.ghost.get('rewrite')
        if rw and is_sym(r): r = rw.get(r.get_id(), (None, r))[1]
        return r

    def farith(self, op, a, b):
        if isinstance(a, Special) or isinstance(b, Special):
            if op == 'fdiv' and isinstance(b, Special) and not isinstance(a, Special): return Fraction(0)
            import math
            if isinstance(a, Special) and a.f is None or isinstance(b, Special) and b.f is None: return Special(None)
            if isinstance(a, Special) and isinstance(b, (Fraction, Special)) or isinstance(b, Special) and isinstance(a, (Fraction, Special)):
                x = a.f if isinstance(a, Special) else float(a); y = b.f if isinstance(b, Special) else float(b)
                try:
                    r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y}[op]()
                    return self.fconst(r)
                except ZeroDivisionError:
                    return Special(math.nan)
            if op in ('fadd', 'fsub'):
                if isinstance(a, Special): return a
                return Special(b.f if op == 'fadd' else -b.f)
            return Special(None)  # an infinite value or not a number: fails wherever it is looked at
        if not is_sym(a) and not is_sym(b):
            a, b = Fraction(a), Fraction(b)
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv':
                if b == 0:
                    if self.opt('fdiv0', 0): return Special(float('inf') if a > 0 else float('-inf') if a < 0 else float('nan'))
                    if self.opt('fdiv_check', 0):
                        self.oblige(False, 'no floating division by zero')
                        raise PathDead()
                    return real(a) / z3.RealVal(0)
                return a / b
        x, y = real(a), real(b)
        if op == 'fadd':
            if not is_sym(b) and b == 0: return a
            if not is_sym(a) and a == 0: return b
            return x + y
        if op == 'fsub':
            if not is_sym(b) and b == 0: return a
            return x - y
        if op == 'fmul':
            for p, q in ((a, b), (b, a)):
                if not is_sym(p):
                    if p == 0: return Fraction(0)
                    if p == 1: return q
            return x * y
        if op == 'fdiv':
            if not is_sym(b):
                if b == 1: return a
                if b == 0:
                    if self.opt('fdiv_check', 0):
                        self.oblige(False, 'no floating division by zero')
                        raise PathDead()
                    return x / z3.RealVal(0)
                return x * z3.RealVal(str(1 / Fraction(b)))
            if self.opt('fdiv_check', 0): self.oblige(y != 0, 'no floating division by zero')
            return x / y
        if op == 'frem':
            if self.opt('fdiv_check', 0): self.oblige(y != 0, 'no floating division by zero')
            q = trunc_real(x / y)
            return x - y * (z3.ToReal(q) if is_sym(q) else z3.RealVal(q))
        raise Unsupported(op)

    def fcmp(self, fr, ins):
        pred, a, b = ins.a
        if ins.ty[0] == 'vec': raise Unsupported('vector fcmp')
        x, y = self.val(fr, a, ins.ty), self.val(fr, b, ins.ty)
        return self.fcompare(pred, x, y)

    def fcompare(self, pred, x, y):
        import math
        if isinstance(x, Special) and x.f is None or isinstance(y, Special) and y.f is None: raise Unsupported('comparison of an infinite value in ' + self.where())
        if isinstance(x, Special) or isinstance(y, Special):
            fx = x.f if isinstance(x, Special) else 0.0
            fy = y.f if isinstance(y, Special) else 0.0
            if math.isnan(fx) or math.isnan(fy): return pred[0] == 'u' and pred != 'ord'
            if pred == 'ord': return True
            if pred == 'uno': return False
            p = pred[1:]
            return {'eq': fx == fy, 'ne': fx != fy, 'lt': fx < fy, 'le': fx <= fy, 'gt': fx > fy, 'ge': fx >= fy}[p]
        if pred == 'ord' or pred == 'true': return True
        if pred == 'uno' or pred == 'false': return False
        p = pred[1:]
        if not is_sym(x) and not is_sym(y):
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        x, y = real(x), real(y)
        rx, ry = self.radicand(x), self.radicand(y)
        if rx is not None and ry is not None:
            # order of square roots is the order of the radicands
            d = z3.simplify(rx - ry, som=True)
            x, y = d, z3.RealVal(0)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[p]()

    def radicand(self, x):
        """the r >= 0 with x == sqrt(r), if x is such a square root"""
        if z3.is_rational_value(x) and x.as_fraction() >= 0: return z3.RealVal(str(x.as_fraction() ** 2))
        if not (z3.is_app(x) and x.decl().name() == 'sqrt' and x.num_args() == 1): return None
        r = x.arg(0)
        return r if self.sumsq(r) or self.quick_prove(r >= 0) else None

    def sumsq(self, r):
        """is r syntactically a sum of squares?"""
        k = r.decl().kind()
        if k == z3.Z3_OP_ADD: return all(self.sumsq(c) for c in r.children())
        if k == z3.Z3_OP_MUL and r.num_args() == 2: return r.arg(0).get_id() == r.arg(1).get_id()
        return z3.is_rational_value(r) and r.as_fraction() >= 0

    # -------- calls
    def call(self, st, fr, ins):
        callee, args = ins.a[0], ins.a[1]
        if callee[0] == 'asm':
            fr.ip += 1
            return None
        if callee[0] == 'glob': name = callee[1]
        else:
            v = self.val(fr, callee, ('ptr',))
            if not isinstance(v, FnPtr):
                if isinstance(v, Ptr) and v.obj == 0:
                    self.oblige(False, 'no call through a null function')
                    raise PathDead()
                raise Unsupported('indirect call through %r in %s' % (v, self.where()))
            name = v.name
        if name.startswith('@llvm.'):
            from handlers import intrinsic
            return intrinsic(self, st, fr, ins, name, args)
        h = self.find_handler(name)
        if h is not None:
            vals = [self.val(fr, a[1], a[0]) for a in args]
            r = h(self, st, fr, ins, name, vals)
            if r is not None and isinstance(r, tuple) and len(r) == 2 and r[0] == '#states': return r[1]
            if r is not None and isinstance(r, tuple) and r and r[0] == '#handled': return None
            return self.finish_call(st, fr, ins, r)
        f = self.mod.funcs.get(name)
        if f is not None and f.defined:
            vals = []
            for a in args:
                v = self.val(fr, a[1], a[0])
                vals.append(v)
            self.push_call(st, f, vals, ins)
            return None
        raise Unsupported('call to %s' % self.demname(name))

    def find_handler(self, name):
        if name in self.hcache: return self.hcache[name]
        n = name.lstrip('@').strip('"')
        d = self.dem.get(n, n)
        h = self.handlers.lookup(n, d)
        self.hcache[name] = h
        return h


def Hn_limit(self, kx):
    m = re.search(r'!(\d+)$', kx.decl().name())
    return int(m.group(1))
