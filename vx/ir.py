"""Parser for the textual LLVM IR subset that clang 18 / opt 18 print (opaque pointers)."""
import re

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
 |(?P<local>%(?:"[^"]*"|[-\w.$]+))
 |(?P<glob>@(?:"[^"]*"|[-\w.$]+))
 |(?P<meta>!(?:"[^"]*"|[-\w.$]*))
 |(?P<attr>\#\d+)
 |(?P<str>"[^"]*")
 |(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
 |(?P<float>-?\d+\.\d*(?:[eE][-+]?\d+)?)
 |(?P<int>-?\d+)
 |(?P<word>[A-Za-z_$.][-\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ValueError("tokenize: %r" % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group(k)))
    return out


# ---- types: ('int',n) ('double',) ('float',) ('ptr',) ('void',) ('arr',n,t) ('struct',[t..],packed) ('named',name) ('vec',n,t) ('label',) ('metadata',) ('fp80',)
class TypeTable:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            p = 1
            while p < n: p *= 2
            return p
        if k == 'double' or k == 'ptr': return 8
        if k == 'float': return 4
        if k == 'fp80': return 16
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'vec': return t[1] * self.size(t[2])
        if k == 'struct':
            return self.layout(t)[1]
        raise ValueError('size of %r' % (t,))

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int': return min(self.size(t), 16)
        if k in ('double', 'ptr'): return 8
        if k == 'float': return 4
        if k == 'fp80': return 16
        if k == 'arr': return self.align(t[2])
        if k == 'vec': return self.size(t)
        if k == 'struct':
            if t[2] or not t[1]: return 1
            return max(self.align(x) for x in t[1])
        raise ValueError('align of %r' % (t,))

    def layout(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        for f in t[1]:
            if not t[2]:
                a = self.align(f)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(f)
        if not t[2]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return offs, off


class P:
    """token cursor"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, v):
        return self.peek()[1] == v

    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ValueError("expected %r got %r in %s" % (v, x, ' '.join(a[1] for a in self.t[:60])))

    def eof(self):
        return self.i >= len(self.t)


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned', 'immarg', 'inreg',
               'nest', 'swiftself', 'nofree', 'allocptr', 'allocalign', 'noext', 'dead_on_unwind', 'writable'}
PARAM_ATTRS_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'preallocated', 'inalloca', 'nofpclass', 'captures', 'range', 'initializes'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_type(p):
    k, v = p.next()
    if k == 'word':
        if v == 'ptr':
            t = ('ptr',)
            if p.at('addrspace'):
                p.next(); p.expect('('); p.next(); p.expect(')')
        elif v == 'void': t = ('void',)
        elif v == 'double': t = ('double',)
        elif v == 'float': t = ('float',)
        elif v == 'x86_fp80': t = ('fp80',)
        elif v == 'label': t = ('label',)
        elif v == 'metadata': t = ('metadata',)
        elif v == 'opaque': t = ('opaque',)
        elif v == 'token': t = ('token',)
        elif re.fullmatch(r'i\d+', v): t = ('int', int(v[1:]))
        else: raise ValueError('type? %r' % v)
    elif k == 'local':
        t = ('named', v)
    elif v == '[':
        n = int(p.next()[1]); p.expect('x'); e = parse_type(p); p.expect(']')
        t = ('arr', n, e)
    elif v == '{':
        fs = []
        while not p.at('}'):
            fs.append(parse_type(p)); p.accept(',')
        p.expect('}')
        t = ('struct', tuple(fs), False)
    elif v == '<':
        if p.at('{'):
            p.next()
            fs = []
            while not p.at('}'):
                fs.append(parse_type(p)); p.accept(',')
            p.expect('}'); p.expect('>')
            t = ('struct', tuple(fs), True)
        else:
            n = int(p.next()[1]); p.expect('x'); e = parse_type(p); p.expect('>')
            t = ('vec', n, e)
    else:
        raise ValueError('type? %r %r' % (k, v))
    # function types  "ret (args)"  only occur in call instructions; handled there
    return t


def skip_param_attrs(p):
    byval = None
    while True:
        k, v = p.peek()
        if k == 'word' and v in PARAM_ATTRS:
            p.next()
        elif k == 'word' and v in PARAM_ATTRS_PAREN:
            p.next()
            if p.at('('):
                d = 0
                while True:
                    x = p.next()[1]
                    if x == '(': d += 1
                    if x == ')':
                        d -= 1
                        if d == 0: break
            else:
                p.next()
        elif k == 'str':
            p.next()
            if p.at('='):
                p.next(); p.next()
        else:
            return


def hexdouble(v):
    import struct
    return struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]


def parse_value(p, ty):
    """returns operand: ('local',name) ('int',n) ('fp',float) ('null',) ('undef',) ('glob',name) ('agg',[(t,v)..]) ('zero',) ('cstr',bytes) ('gep',...) """
    k, v = p.next()
    if k == 'local': return ('local', v)
    if k == 'glob': return ('glob', v)
    if k == 'int':
        if ty[0] in ('double', 'float'): return ('fp', float(v))
        return ('int', int(v))
    if k == 'float': return ('fp', float(v))
    if k == 'hex':
        if v[2] in 'KMLHR': return ('fp80', v)
        return ('fp', hexdouble(v))
    if k == 'cstr':
        raw = v[2:-1]
        b = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                if raw[i + 1] == '\\':
                    b.append(0x5c); i += 2
                else:
                    b.append(int(raw[i + 1:i + 3], 16)); i += 3
            else:
                b.append(ord(raw[i])); i += 1
        return ('cstr', bytes(b))
    if k == 'word':
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('null',)
        if v == 'getelementptr':
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange') or p.at('('):
                if p.at('('):
                    p.next(); break
                w = p.next()[1]
                if w == 'inrange' and p.at('('):
                    while p.next()[1] != ')': pass
            bt = parse_type(p); p.expect(',')
            pt = parse_type(p); base = parse_value(p, pt)
            idx = []
            while p.accept(','):
                p.accept('inrange')
                it = parse_type(p)
                idx.append((it, parse_value(p, it)))
            p.expect(')')
            return ('gep', bt, base, idx)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'addrspacecast'):
            p.expect('(')
            t1 = parse_type(p); x = parse_value(p, t1); p.expect('to'); t2 = parse_type(p); p.expect(')')
            return ('cast', v, t1, x, t2)
        if v in ('sub', 'add', 'mul', 'icmp', 'select'):
            # rarely needed: parse balanced
            while not p.at('('): p.next()
            p.expect('(')
            ops = []
            while not p.at(')'):
                t1 = parse_type(p); ops.append((t1, parse_value(p, t1))); p.accept(',')
            p.expect(')')
            return ('cexpr', v, ops)
        if v == 'asm' or v == 'blockaddress':
            raise ValueError('unsupported operand ' + v)
    if v == '[' or v == '{' or v == '<':
        close = {'[': ']', '{': '}', '<': '>'}[v]
        packed = False
        if v == '<' and p.at('{'):
            p.next(); close = '}'; packed = True
        elems = []
        while not p.at(close):
            t = parse_type(p); elems.append((t, parse_value(p, t))); p.accept(',')
        p.expect(close)
        if packed: p.expect('>')
        return ('agg', elems)
    raise ValueError('value? %r %r' % (k, v))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'text', 'flags')

    def __init__(self, op, res=None, ty=None, a=None, text='', flags=()):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.text = text; self.flags = flags

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []  # (type, name)
        self.ret = None
        self.blocks = {}  # label -> [Instr]
        self.order = []
        self.defined = False
        self._loops = None


class Module:
    def __init__(self):
        self.tt = TypeTable()
        self.funcs = {}
        self.globals = {}  # name -> (type, init or None, const?)
        self.aliases = {}


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr', 'fpext', 'fptrunc', 'addrspacecast', 'freeze'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'tailcc'}


def parse_call_rest(p, kind):
    # after 'call'/'invoke': [fmf] [cconv] [ret attrs] type [fnty] callee(args)
    while p.peek()[1] in FMF or p.peek()[1] in CCONV: p.next()
    skip_param_attrs(p)
    rty = parse_type(p)
    if p.at('('):  # explicit function type (varargs)
        d = 0
        while True:
            x = p.next()[1]
            if x == '(': d += 1
            if x == ')':
                d -= 1
                if d == 0: break
    k, v = p.peek()
    if v == 'asm':
        return rty, ('asm',), []
    callee = parse_value(p, ('ptr',))
    p.expect('(')
    args = []
    while not p.at(')'):
        t = parse_type(p)
        if t == ('metadata',):
            # skip metadata operand
            d = 0
            while True:
                x = p.peek()[1]
                if d == 0 and x in (',', ')'): break
                if x in '([{': d += 1
                if x in ')]}': d -= 1
                p.next()
            args.append((t, ('undef',)))
        else:
            byv = None
            # detect byval / sret
            j = p.i
            skip_param_attrs(p)
            attrs = [x[1] for x in p.t[j:p.i]]
            args.append((t, parse_value(p, t)) if 'byval' not in attrs else (t, parse_value(p, t), 'byval'))
        p.accept(',')
    p.expect(')')
    return rty, callee, args


def parse_instr(line):
    p = P(tokenize(line))
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = p.next()[1]; p.next()
    op = p.next()[1]
    I = lambda ty, a, flags=(): Instr(op, res, ty, a, line.strip(), flags)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op in BIN:
        fl = []
        while p.peek()[1] in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek()[1] in FMF: fl.append(p.next()[1])
        ty = parse_type(p); a = parse_value(p, ty); p.expect(','); b = parse_value(p, ty)
        return Instr(op, res, ty, (a, b), line.strip(), tuple(fl))
    if op == 'fneg':
        while p.peek()[1] in FMF: p.next()
        ty = parse_type(p); a = parse_value(p, ty)
        return I(ty, (a,))
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FMF or p.peek()[1] == 'samesign': p.next()
        pred = p.next()[1]
        ty = parse_type(p); a = parse_value(p, ty); p.expect(','); b = parse_value(p, ty)
        return I(ty, (pred, a, b))
    if op in CASTS:
        fl = []
        while p.peek()[1] in ('nneg', 'nuw', 'nsw') or p.peek()[1] in FMF: fl.append(p.next()[1])
        ty = parse_type(p); a = parse_value(p, ty)
        if op == 'freeze': return I(ty, (a, ty))
        p.expect('to'); t2 = parse_type(p)
        return Instr(op, res, t2, (a, ty), line.strip(), tuple(fl))
    if op == 'alloca':
        p.accept('inalloca')
        ty = parse_type(p)
        n = ('int', 1)
        if p.accept(','):
            if not p.at('align') and not p.peek()[0] == 'meta':
                nt = parse_type(p); n = parse_value(p, nt)
        return I(ty, (n,))
    if op == 'load':
        p.accept('atomic'); p.accept('volatile')
        ty = parse_type(p); p.expect(','); pt = parse_type(p); a = parse_value(p, pt)
        return I(ty, (a,))
    if op == 'store':
        p.accept('atomic'); p.accept('volatile')
        ty = parse_type(p); v = parse_value(p, ty); p.expect(','); pt = parse_type(p); a = parse_value(p, pt)
        return I(ty, (v, a))
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = parse_type(p); p.expect(','); pt = parse_type(p); base = parse_value(p, pt)
        idx = []
        while p.accept(','):
            if p.peek()[0] == 'meta': break
            it = parse_type(p); idx.append((it, parse_value(p, it)))
        return I(bt, (base, idx))
    if op == 'phi':
        while p.peek()[1] in FMF: p.next()
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('['); v = parse_value(p, ty); p.expect(','); l = p.next()[1]; p.expect(']')
            inc.append((v, l))
            if not (p.at(',') and p.peek(1)[1] == '['): break
            p.next()
        return I(ty, inc)
    if op == 'select':
        while p.peek()[1] in FMF: p.next()
        ct = parse_type(p); c = parse_value(p, ct); p.expect(','); t1 = parse_type(p); a = parse_value(p, t1); p.expect(','); t2 = parse_type(p); b = parse_value(p, t2)
        return I(t1, (c, a, b, ct))
    if op in ('call', 'invoke'):
        rty, callee, args = parse_call_rest(p, op)
        if op == 'call':
            return Instr('call', res, rty, (callee, args), line.strip())
        while not p.at('to'): p.next()
        p.expect('to'); p.expect('label'); n = p.next()[1]; p.expect('unwind'); p.expect('label'); u = p.next()[1]
        return Instr('invoke', res, rty, (callee, args, n, u), line.strip())
    if op == 'br':
        if p.at('label'):
            p.next(); return I(None, (None, p.next()[1]))
        ty = parse_type(p); c = parse_value(p, ty); p.expect(','); p.expect('label'); a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
        return I(None, (c, a, b))
    if op == 'switch':
        ty = parse_type(p); c = parse_value(p, ty); p.expect(','); p.expect('label'); d = p.next()[1]; p.expect('[')
        cases = []
        while not p.at(']'):
            t = parse_type(p); v = parse_value(p, t); p.expect(','); p.expect('label'); cases.append((v, p.next()[1]))
        return I(ty, (c, d, cases))
    if op == 'ret':
        ty = parse_type(p)
        return I(ty, (parse_value(p, ty) if ty != ('void',) else None,))
    if op in ('unreachable',):
        return I(None, ())
    if op == 'fence':
        return I(None, ())
    if op == 'resume':
        ty = parse_type(p); return I(ty, (parse_value(p, ty),))
    if op == 'extractvalue':
        ty = parse_type(p); v = parse_value(p, ty); ix = []
        while p.accept(','):
            if p.peek()[0] != 'int': break
            ix.append(int(p.next()[1]))
        return I(ty, (v, ix))
    if op == 'insertvalue':
        ty = parse_type(p); v = parse_value(p, ty); p.expect(','); t2 = parse_type(p); e = parse_value(p, t2); ix = []
        while p.accept(','):
            if p.peek()[0] != 'int': break
            ix.append(int(p.next()[1]))
        return I(ty, (v, e, ix, t2))
    if op == 'extractelement':
        ty = parse_type(p); v = parse_value(p, ty); p.expect(','); it = parse_type(p); i = parse_value(p, it)
        return I(ty, (v, i))
    if op == 'insertelement':
        ty = parse_type(p); v = parse_value(p, ty); p.expect(','); t2 = parse_type(p); e = parse_value(p, t2); p.expect(','); it = parse_type(p); i = parse_value(p, it)
        return I(ty, (v, e, i, t2))
    if op == 'shufflevector':
        ty = parse_type(p); a = parse_value(p, ty); p.expect(','); t2 = parse_type(p); b = parse_value(p, t2); p.expect(','); mt = parse_type(p); m = parse_value(p, mt)
        return I(ty, (a, b, m, mt))
    if op == 'landingpad':
        ty = parse_type(p)
        clauses = []; cleanup = False
        while not p.eof():
            w = p.next()[1]
            if w == 'cleanup': cleanup = True
            elif w == 'catch':
                t = parse_type(p); clauses.append(('catch', parse_value(p, t)))
            elif w == 'filter':
                t = parse_type(p); clauses.append(('filter', parse_value(p, t)))
            else: break
        return I(ty, (clauses, cleanup))
    if op in ('atomicrmw', 'cmpxchg'):
        return Instr('unsupported', res, None, (), line.strip())
    return Instr('unsupported', res, None, (), line.strip())


DEF = re.compile(r'^define\b')


def parse_sig(line, is_def):
    p = P(tokenize(line.rstrip().rstrip('{')))
    p.next()
    LINK = {'linkonce_odr', 'dso_local', 'internal', 'private', 'weak_odr', 'weak', 'external', 'hidden', 'available_externally', 'noundef', 'local_unnamed_addr',
            'unnamed_addr', 'extern_weak', 'linkonce', 'protected', 'dllimport'} | CCONV
    while p.peek()[1] in LINK: p.next()
    skip_param_attrs(p)
    while p.peek()[1] in LINK: p.next()
    ret = parse_type(p)
    name = p.next()[1]
    f = Function(name)
    f.ret = ret
    p.expect('(')
    n = 0
    while not p.at(')'):
        if p.peek()[0] == 'dots' or p.at('...'):
            p.next(); continue
        t = parse_type(p)
        j = p.i
        skip_param_attrs(p)
        if p.peek()[0] == 'local':
            nm = p.next()[1]
        else:
            nm = '%%%d' % n
        n += 1
        f.params.append((t, nm))
        p.accept(',')
    f.nunnamed = n
    return f


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            p = P(tokenize(l))
            nm = p.next()[1]; p.next(); p.next()
            m.tt.named[nm] = parse_type(p)
            i += 1
        elif l.startswith('@'):
            nm = re.match(r'@(?:"[^"]*"|[-\w.$]+)', l).group(0)
            m.globals[nm] = l  # lazily parsed
            i += 1
        elif l.startswith('define'):
            f = parse_sig(l, True)
            f.defined = True
            i += 1
            body = []
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            f.body_text = body
            m.funcs[f.name] = f
        elif l.startswith('declare'):
            f = parse_sig(l, False)
            m.funcs.setdefault(f.name, f)
            i += 1
        else:
            i += 1
    return m


LABEL = re.compile(r'^(?:"([^"]*)"|([-\w.$]+)):')


def ensure_body(f):
    if f.order or not f.defined: return
    first = None
    cur = None
    lines = f.body_text
    i = 0
    pend = []
    merged = []
    while i < len(lines):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(';'):
            i += 1; continue
        if s.startswith('#dbg_'):
            i += 1; continue
        if not l.startswith(' '):
            merged.append(l); i += 1; continue
        if re.match(r'(%\S+ = )?switch ', s) and ']' not in s:
            while ']' not in lines[i]:
                i += 1
                s += ' ' + lines[i].strip()
            merged.append('  ' + s); i += 1; continue
        while i + 1 < len(lines) and (re.match(r'\s+(to label|cleanup|catch |filter )', lines[i + 1])):
            i += 1
            s += ' ' + lines[i].strip()
        merged.append('  ' + s); i += 1
    started = False
    for l in merged:
        if not l.startswith(' '):
            mm = LABEL.match(l)
            lab = mm.group(1)
            if lab is not None:
                lab = '%"' + lab + '"'
            else:
                lab = '%' + mm.group(2)
            cur = lab
            f.blocks[cur] = []
            f.order.append(cur)
        else:
            if cur is None:
                cur = '%%%d' % f.nunnamed
                # entry block number = count of unnamed params (numbered together)
                cnt = sum(1 for t, nm in f.params if re.fullmatch(r'%\d+', nm))
                cur = '%%%d' % cnt
                f.blocks[cur] = []
                f.order.append(cur)
            c = l.split(', !', 1)[0] if 'metadata' not in l else l
            f.blocks[cur].append(parse_instr(c))
    f.entry = f.order[0]


def succs(f, lab):
    t = f.blocks[lab][-1]
    if t.op == 'br':
        return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
    if t.op == 'switch':
        return [t.a[1]] + [c[1] for c in t.a[2]]
    if t.op == 'invoke':
        return [t.a[2], t.a[3]]
    return []


def loops(f):
    """natural loops: header -> set of blocks (union over back edges)"""
    if f._loops is not None: return f._loops
    ensure_body(f)
    order = []
    seen = set()
    st = [(f.entry, iter(succs(f, f.entry)))]
    seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(succs(f, s)))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f, b): preds[s].append(b)
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None: new = q
                    else:
                        x, y = q, new
                        while x != y:
                            while idx[x] > idx[y]: x = idom[x]
                            while idx[y] > idx[x]: y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new; ch = True

    def dom(a, b):
        while True:
            if a == b: return True
            if b == rpo[0]: return False
            b = idom[b]

    L = {}
    for b in rpo:
        for s in succs(f, b):
            if dom(s, b):
                body = L.setdefault(s, {s})
                stk = [b]
                while stk:
                    x = stk.pop()
                    if x in body: continue
                    body.add(x)
                    stk.extend(preds[x])
    f._loops = L
    return L
