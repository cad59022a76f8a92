"""Compile a harness with the real headers, lower it to IR, run the verifier on its contracts."""
import os, re, signal, subprocess, sys, threading, time, traceback, json, hashlib, tempfile
import z3
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
LL = '/usr/lib/llvm-18/bin/'
REPO = os.environ.get('VX_REPO', '/repo')


def incs():
    return ['-I', HERE + '/include', '-I', ROOT + '/stubs', '-I', REPO + '/c++']


CXX = ['-std=c++23', '-fno-strict-aliasing', '-ffp-contract=off', '-Wno-everything', '-DFMT_HEADER_ONLY']


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    return p


def to_ir(src, out, defs=()):
    """front end only: no optimisation at all"""
    cmd = [LL + 'clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-threadsafe-statics', '-fno-discard-value-names', '-S', '-emit-llvm', '-DVX_PROOF', '-D_GLIBCXX_ASSERTIONS', '-U_FORTIFY_SOURCE'] + \
        CXX + [d if d.startswith('-') else '-D' + d for d in defs] + incs() + [src, '-o', out]
    p = run(cmd)
    if p.returncode: raise RuntimeError('compile (proof mode) failed:\n' + p.stderr[-6000:])


def demangle(names):
    p = subprocess.run([LL + 'llvm-cxxfilt', '-n'] if os.path.exists(LL + 'llvm-cxxfilt') else ['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, p.stdout.split('\n')))


FN = re.compile(r'^define [^\n]*?(@(?:"[^"]*"|[-\w.$]+))\(', re.M)


def strip_bodies(text, drop):
    """turn the definition of every function for which drop(mangled, demangled) holds into a declaration"""
    names = [m.group(1)[1:].strip('"') for m in FN.finditer(text)]
    dem = demangle(names)
    out = []
    lines = text.split('\n')
    i = 0
    dropped = []
    while i < len(lines):
        l = lines[i]
        if l.startswith('define '):
            nm = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\(', l).group(1)[1:].strip('"')
            if drop(nm, dem.get(nm, nm)):
                dropped.append(nm)
                j = i
                while lines[j] != '}': j += 1
                d = l[:l.rindex('{')]
                d = re.sub(r' personality ptr @\w+', '', d)
                d = re.sub(r' comdat(\(\$[^)]*\))?', '', d)
                d = d.replace('define ', 'declare ', 1)
                d = re.sub(r'^declare (linkonce_odr|internal|weak_odr|available_externally|linkonce|weak|private|hidden|dso_local|\s)+ ', 'declare ', d)
                d = re.sub(r' !\w+( !\d+)?', '', d)
                d = re.sub(r' align \d+(?= (personality|comdat|$))', '', d)
                out.append(d)
                i = j + 1
                continue
        out.append(l)
        i += 1
    return '\n'.join(out), dropped


INLINE = 'cgscc(inline),globaldce,function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,sroa<modify-cfg>,early-cse<memssa>,instsimplify,simplifycfg<no-switch-to-lookup>)'


def lower(src_ll, out_ll, handlers, keep=None, noinline=(), extra_drop=()):
    text = open(src_ll).read()
    rx = handlers.strip_regexes()
    ed = [re.compile(x) for x in extra_drop]

    def drop(m, d):
        if m.startswith('vxc_'): return False
        if m in handlers.exact: return True
        return any(r.search(d) for r in rx) or any(r.search(d) for r in ed)

    al = dict(re.findall(r'^(@(?:"[^"]*"|[-\w.$]+)) = [^\n]*?\balias [^\n]*?, ptr (@(?:"[^"]*"|[-\w.$]+))', text, re.M))
    if al:
        text = re.sub(r'^@(?:"[^"]*"|[-\w.$]+) = [^\n]*?\balias [^\n]*\n', '', text, flags=re.M)

        def res(m):
            n = m.group(0)
            while n in al: n = al[n]
            return n
        text = re.sub(r'@(?:"[^"]*"|[-\w.$]+)', res, text)
    text, dropped = strip_bodies(text, drop)
    json.dump(reachable(text), open(out_ll + '.fn.json', 'w'))
    # keep the contracts, let everything else be internal
    tmp = src_ll + '.s.ll'
    open(tmp, 'w').write(text)
    p = run([LL + 'opt', '-S', '-passes=internalize,globaldce,' + INLINE + ',' + INLINE, '-internalize-public-api-list=' + ','.join(contracts_of(text)), '-inline-threshold=2500', '-inlinehint-threshold=5000', '-max-inst-threshold=1' if False else '-inline-cost-full=false', tmp, '-o', out_ll])
    if p.returncode: raise RuntimeError('opt failed: ' + p.stderr[-3000:])
    ll = open(out_ll).read()
    if 'atomicrmw' in ll:  # one thread: reference counts
        ll = re.sub(r'^  (%\S+) = atomicrmw (?:volatile )?(add|sub) ptr (\S+), (i\d+) (\S+) .*$',
                    r'  \1 = load \4, ptr \3, align 4\n  \1.rmw = \2 \4 \1, \5\n  store \4 \1.rmw, ptr \3, align 4', ll, flags=re.M)
        open(out_ll, 'w').write(ll)
    return dropped


def reachable(text):
    """functions of the code under contract (namespace triqs) reachable from each contract, before inlining"""
    calls = {}
    cur = None
    for l in text.split('\n'):
        if l.startswith('define '):
            cur = re.search(r'@("[^"]*"|[-\w.$]+)\(', l).group(1).strip('"')
            calls[cur] = set()
        elif l == '}': cur = None
        elif cur is not None and '@' in l:
            calls[cur].update(x.strip('"') for x in re.findall(r'@("[^"]*"|[-\w.$]+)', l))
    out = {}
    dem = demangle(sorted(calls))
    for c in calls:
        if not c.startswith('vxc_'): continue
        seen = set(); st = [c]
        while st:
            x = st.pop()
            if x in seen or x not in calls: continue
            seen.add(x)
            st.extend(calls[x])
        out[c[4:]] = sorted(dem[x] for x in seen if re.match(r'^_Z(T[hv]n?\d*_)?(N|ZN)?[KVrRO]*(K)?(5triqs|S.*5triqs|.*5triqs)', x) and re.search(r'^([\w:<>,&* ()\[\]]+ )?triqs::', dem[x]))
    return out


def contracts_of(text):
    return sorted(set(re.findall(r'^define [^\n]*@(vxc_\w+)\(', text, re.M)))


def native_build(src, out, defs=(), san=True):
    cmd = [LL + 'clang++', '-O1', '-g0', '-rdynamic'] + (['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,alignment'] if san else []) + CXX + ['-D_GLIBCXX_ASSERTIONS'] + [d if d.startswith('-') else '-D' + d for d in defs] + incs() + [src, HERE + '/include/vx_native.cpp', '-o', out, '-ldl']
    p = run(cmd)
    if p.returncode: raise RuntimeError('compile (native mode) failed:\n' + p.stderr[-6000:])


def load(ll):
    import ir
    text = open(ll).read()
    m = ir.parse_module(text)
    names = [n[1:].strip('"') for n in m.funcs]
    return m, demangle(names)


def watchdog(budget):
    """ends a solver call or a computation that ignores the time budget"""
    import engine
    done = threading.Event()

    def poke():
        if done.wait(budget + 3): return
        while not done.wait(1.0): z3.main_ctx().interrupt()

    def ring(sig, frame):
        if done.is_set(): return
        where = traceback.extract_stack(frame)[-6:]
        raise engine.StopAll('time budget (in %s)' % ', '.join('%s:%d' % (f.name, f.lineno) for f in where))

    def stop():
        done.set()
        if main: signal.setitimer(signal.ITIMER_REAL, 0)

    main = threading.current_thread() is threading.main_thread()
    if main:
        signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, budget + 8, 10)
    threading.Thread(target=poke, daemon=True).start()
    return stop


def verify(mod, dem, name, mode='int', timeout=10.0, budget=300.0, verbose=False, opts=None):
    import engine, handlers
    e = engine.Engine(mod, dem, handlers.H, mode=mode, timeout=timeout, budget=budget, verbose=verbose)
    e.default_opts = dict(opts or {})
    r = {'contract': name, 'mode': mode}
    t = time.time()
    stop = watchdog(budget)
    try:
        e.run_contract('@vxc_' + name)
        r['end'] = 'complete'
    except engine.Unsupported as ex:
        r['end'] = 'unsupported: %s' % ex
        if verbose:
            import traceback
            traceback.print_exc()
            if e.st: print('in', [e.demname(f.f.name)[:120] for f in e.st.frames])
    except engine.StopAll as ex:
        r['end'] = 'stopped: %s' % ex
    except z3.Z3Exception as ex:
        if time.time() - t < budget: raise
        r['end'] = 'stopped: time budget (%s)' % ex
    finally:
        stop()
    r['wall'] = time.time() - t
    r['solver'] = e.solver_time
    r['queries'] = e.nq
    r['paths'] = e.paths
    r['obligations'] = len(e.obligations)
    r['discharged'] = sum(o.status == 'proved' for o in e.obligations)
    r['backends'] = {}
    for o in e.obligations:
        if o.status == 'proved': r['backends'][o.backend] = r['backends'].get(o.backend, 0) + 1
    r['labels'] = sorted(set(o.label for o in e.obligations))
    r['failed'] = [dict(label=o.label, status=o.status, where=o.where, model=o.model, detail=o.detail) for o in e.obligations if o.status != 'proved']
    r['covers'] = e.covers
    r['functions'] = sorted(set(e.demname(f) for f in e.executed))
    r['loops_cut'] = getattr(e, 'loops_cut', 0)
    r['assumptions'] = sorted(e.assumptions)
    return r


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('src')
    ap.add_argument('--only', default=None)
    ap.add_argument('--mode', default='int')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--timeout', type=float, default=10)
    ap.add_argument('--budget', type=float, default=300)
    ap.add_argument('--keep', default='/tmp/vxw')
    ap.add_argument('--native', action='store_true')
    ap.add_argument('--iters', default='2000')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--reuse', action='store_true')
    a = ap.parse_args()
    os.makedirs(a.keep, exist_ok=True)
    b = os.path.basename(a.src)[:-4]
    import handlers
    if a.native:
        t = time.time()
        native_build(a.src, a.keep + '/' + b + '.exe', defs_of(a.src))
        print('native build', time.time() - t)
        names = re.findall(r'^VX_(?:CONTRACT|BOUNDED)\((\w+)\)', open(a.src).read(), re.M)
        for n in names:
            if a.only and not re.search(a.only, n): continue
            t = time.time()
            p = run([a.keep + '/' + b + '.exe', '--contract', n, '--iters', a.iters, '--seed', a.seed])
            print(n, p.returncode, p.stdout.strip(), p.stderr[-1500:] if p.returncode else '', '%.2fs' % (time.time() - t))
        return
    raw, ll = a.keep + '/' + b + '.raw.ll', a.keep + '/' + b + '.ll'
    if not a.reuse:
        t = time.time()
        to_ir(a.src, raw, defs_of(a.src))
        lower(raw, ll, handlers.H)
        print('lowering', time.time() - t, os.path.getsize(ll))
    m, dem = load(ll)
    md = modes(a.src)
    for f in sorted(m.funcs):
        if f.startswith('@vxc_') and m.funcs[f].defined:
            n = f[5:]
            if a.only and not re.search(a.only, n): continue
            r = verify(m, dem, n, mode=md.get(n, a.mode), timeout=a.timeout, budget=a.budget, verbose=a.v)
            print(n, r['mode'], r['end'], 'obl', r['obligations'], 'ok', r['discharged'], 'paths', r['paths'], 'cut', r['loops_cut'], 'covers', r['covers'], '%.2fs' % r['wall'], 'q', r['queries'])
            for x in r['failed']: print('    FAIL', x['status'], x['label'], x['where'][:80], x['model'])


def modes(src):
    """// vx: NAME mode=int  lines"""
    out = {}
    cur = 'int'
    for l in open(src):
        m = re.match(r'//\s*vx-mode:\s*(\w+)', l)
        if m: cur = m.group(1)
        m = re.match(r'VX_CONTRACT\((\w+)\)', l)
        if m: out[m.group(1)] = cur
    return out


def defs_of(src):
    return re.findall(r'^//\s*vx-define:\s*(\S+)', open(src).read(), re.M)


def contracts_src(src):
    return re.findall(r'^VX_CONTRACT\((\w+)\)', open(src).read(), re.M)


if __name__ == '__main__': main()
