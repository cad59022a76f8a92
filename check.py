#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property: prove every contract of its harness files on /repo's current source, and run the same contracts
natively (seeded) as replay / bounded search.

  check.py PROPERTY            (VERIF_SEED, VERIF_TIER from the environment)
  check.py --replay FILE       re-run a recorded failing input against the real code
"""
import os, sys, re, json, time, shutil, tempfile, subprocess, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/vx')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import vxc
from concurrent.futures import ProcessPoolExecutor, as_completed, TimeoutError as FTimeout
from spec import PROPS

NPROC = min(8, os.cpu_count() or 2)


def harness_meta(src):
    """options in // vx-... lines of a harness"""
    txt = open(src).read()
    kinds = {n: k for k, n in re.findall(r'^VX_(CONTRACT|BOUNDED)\((\w+)\)', txt, re.M)}
    defs = []
    for m in re.findall(r'^//\s*vx-define:\s*(\S+)', txt, re.M): defs.append(m)
    tmo = {}
    for n, v in re.findall(r'^//\s*vx-timeout:\s*(\w+)\s+([\d.]+)', txt, re.M): tmo[n] = float(v)
    bnd = {}
    for rx, t in re.findall(r'^//\s*vx-bounded:\s*(\S+)\s+(.*)$', txt, re.M):
        for n in kinds:
            if re.fullmatch(rx, n): bnd[n] = t.strip()
    return kinds, vxc.modes(src), defs, tmo, bnd


# ---- tasks run in worker processes
def t_ir(h, work):
    t = time.time()
    src = '%s/harness/%s.cpp' % (ROOT, h)
    raw, ll = '%s/%s.raw.ll' % (work, h), '%s/%s.ll' % (work, h)
    try:
        import handlers
        vxc.to_ir(src, raw, harness_meta(src)[2])
        vxc.lower(raw, ll, handlers.H)
        os.remove(raw)
        for x in (raw + '.s.ll',):
            if os.path.exists(x): os.remove(x)
        return h, 'ir', None, time.time() - t
    except Exception as ex:
        return h, 'ir', str(ex)[-3000:], time.time() - t


def t_native(h, work):
    t = time.time()
    src = '%s/harness/%s.cpp' % (ROOT, h)
    try:
        vxc.native_build(src, '%s/%s.exe' % (work, h), harness_meta(src)[2])
        return h, 'native', None, time.time() - t
    except Exception as ex:
        return h, 'native', str(ex)[-3000:], time.time() - t


_mods = {}


def t_prove(h, work, name, mode, timeout, budget):
    try:
        if h not in _mods: _mods[h] = vxc.load('%s/%s.ll' % (work, h))
        m, dem = _mods[h]
        r = vxc.verify(m, dem, name, mode=mode, timeout=timeout, budget=budget)
    except Exception as ex:
        r = {'contract': name, 'mode': mode, 'end': 'unsupported: internal %s' % traceback.format_exc()[-1500:], 'obligations': 0, 'discharged': 0, 'failed': [], 'covers': {},
             'functions': [], 'loops_cut': 0, 'assumptions': [], 'solver': 0, 'queries': 0, 'paths': 0, 'backends': {}, 'wall': 0, 'labels': []}
    r['harness'] = h
    try:
        r['functions'] = json.load(open('%s/%s.ll.fn.json' % (work, h))).get(name, [])
    except Exception:
        pass
    return r


def stopped(hn, why):
    return {'harness': hn[0], 'contract': hn[1], 'mode': 'int', 'end': 'stopped: ' + why, 'obligations': 0, 'discharged': 0, 'failed': [], 'covers': {}, 'functions': [], 'loops_cut': 0,
            'assumptions': [], 'solver': 0, 'queries': 0, 'paths': 0, 'backends': {}, 'wall': 0, 'labels': []}


def kill(ex):
    for p in list(ex._processes.values()): p.kill()


def native_run(h, work, name, seed, iters, tmax, replay=None):
    cmd = ['%s/%s.exe' % (work, h), '--contract', name, '--seed', str(seed), '--iters', str(iters), '--time', str(tmax)]
    if replay: cmd += ['--replay', replay]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:handle_abort=0:allocator_may_return_null=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0'
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=tmax + 150, env=env, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as ex:
        return 5, '', 'timeout'


def t_run(h, work, name, seed, iters, tmax):
    t = time.time()
    rc, out, err = native_run(h, work, name, seed, iters, tmax)
    m = re.search(r'RUNS (\d+) DISCARDED (\d+)', out)
    cov = dict((b, int(a)) for a, b in re.findall(r'^COVER (\d+) (.*)$', out, re.M))
    return dict(harness=h, contract=name, rc=rc, out=out[-20000:], err=err[-4000:], runs=int(m.group(1)) if m else 0, discarded=int(m.group(2)) if m else 0, covers=cov, wall=time.time() - t)


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay': return replay_file(sys.argv[2])
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    deep = tier == 'thorough'
    P = PROPS[pid]
    work = tempfile.mkdtemp(prefix='vx-%s-' % pid)
    try:
        return decide(pid, P, seed, tier, deep, work, t0, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, P, seed, tier, deep, work, t0, only=None):
    hs = P['harness']
    meta = {h: harness_meta('%s/harness/%s.cpp' % (ROOT, h)) for h in hs}
    timeout = 40.0 if deep else 12.0
    budget = 600.0 if deep else 240.0
    tn = 30.0 if deep else 4.0
    iters = 2000000 if deep else 100000
    last = 7200.0 if deep else 760.0
    proofs, runs, builds = [], [], []
    with ProcessPoolExecutor(NPROC) as ex:
        fut, what = {}, {}
        for h in hs:
            fut[ex.submit(t_ir, h, work)] = 'b'
            fut[ex.submit(t_native, h, work)] = 'b'
        pend = set(fut)
        while pend:
            try:
                f = next(as_completed(list(pend), timeout=max(1.0, t0 + last - time.time())))
            except FTimeout:
                break
            for f in [f]:
                pend.discard(f)
                r = f.result()
                if fut[f] == 'b':
                    builds.append(r)
                    h, k, err, _ = r
                    kinds, md, _, tmo, _ = meta[h]
                    if err is None:
                        for n in kinds:
                            if only and not re.search(only, n): continue
                            if k == 'ir' and kinds[n] == 'CONTRACT':
                                g = ex.submit(t_prove, h, work, n, md.get(n, 'int'), tmo.get(n, timeout) * (2 if deep else 1), budget)
                                fut[g] = 'p'; pend.add(g); what[g] = (h, n)
                            elif k == 'native':
                                g = ex.submit(t_run, h, work, n, seed, iters, tn)
                                fut[g] = 'r'; pend.add(g)
                elif fut[f] == 'p': proofs.append(r)
                else: runs.append(r)
                break
        if pend:
            # nothing above should take this long: give up on what is left, which then counts as not decided
            for f in pend:
                if fut[f] == 'p': proofs.append(stopped(what[f], 'time of the check used up'))
            kill(ex)
        # an obligation left open by the solvers (machine busy, unlucky search) is tried again on the idle machine with more time
        again = {}
        for p in proofs:
            if pend or time.time() - t0 > 420: break
            if p['failed'] and all(b['status'] == 'unknown' for b in p['failed']) or p['end'].startswith('stopped') and not p['failed']:
                if any(r['rc'] == 1 and r['contract'] == p['contract'] and r['harness'] == p['harness'] for r in runs): continue
                _, md, _, tmo, _ = meta[p['harness']]
                again[(p['harness'], p['contract'])] = ex.submit(t_prove, p['harness'], work, p['contract'], md.get(p['contract'], 'int'), 3 * tmo.get(p['contract'], timeout), 280.0)
        for key, f in again.items():
            try:
                r = f.result(timeout=max(1.0, t0 + last - time.time()))
            except FTimeout:
                kill(ex)
                break
            if not r['failed'] and r['end'] == 'complete' or any(b['status'] == 'refuted' for b in r['failed']):
                proofs = [p for p in proofs if (p['harness'], p['contract']) != key] + [r]
    # ---- verdict
    viol = []  # (contract, obligation label, replay file, concrete?)
    notes = []
    known = [k for k in json.load(open(ROOT + '/known-findings.json'))['findings'] if k['property'] == pid]
    hit = set()
    os.makedirs(ROOT + '/replay', exist_ok=True)

    def rfile(c): return '%s/replay/%s-%s.txt' % (ROOT, pid, c)

    def is_known(c, label, inputs):
        for k in known:
            if k['contract'] == c and re.search(k['obligation'], label):
                hit.add(k['id'])
                return True
        return False

    for h, k, err, _ in builds:
        if err is not None:
            f = rfile('build_' + h)
            open(f, 'w').write('# harness %s could not be built (%s) from the current source\n%s\n' % (h, k, err))
            viol.append((h, 'the code under contract compiles with its contracts', f, False))
    failed_native = {}
    for r in runs:
        if r['rc'] == 1:
            lab = (re.search(r'FAILED obligation: (.*)', r['out']) or [None, '?'])[1]
            failed_native[(r['harness'], r['contract'])] = (lab, r)
        elif r['rc'] not in (0, 3):
            notes.append('native run of %s ended with %s: %s' % (r['contract'], r['rc'], r['err'][-300:]))
        if r['rc'] == 3: notes.append('native run of %s: every generated input was outside the precondition' % r['contract'])
    done = set()
    for (h, c), (lab, r) in failed_native.items():
        f = rfile(c)
        write_replay(f, pid, h, c, lab, r['out'], [p for p in proofs if p['contract'] == c], r['err'])
        done.add((h, c))
        if not is_known(c, lab, r['out']): viol.append((c, lab, f, True))
    bounded = []
    for p in proofs:
        h, c = p['harness'], p['contract']
        bad = list(p['failed'])
        vac = [l for l, v in p['covers'].items() if v is False]
        if p['end'].startswith('unsupported'):
            bounded.append('%s: %s' % (c, p['end'][:300]))
        elif p['end'].startswith('stopped') and not bad:
            bad.append(dict(label='all obligations generated within the budget', status='unknown', where=p['end'], model=None, detail=''))
        if p['end'] == 'complete' and not bad:
            if vac: bad.append(dict(label='reachable: ' + ', '.join(vac), status='refuted', where='', model=None, detail='the contract became vacuous'))
            elif p['paths'] == 0: bad.append(dict(label='an input satisfies the precondition of the contract', status='refuted', where='', model=None, detail='no path reaches the end of the contract'))
            elif p['obligations'] == 0: bad.append(dict(label='the contract states obligations', status='refuted', where='', model=None, detail=''))
        if (h, c) in done: continue
        if not bad and not p['end'].startswith('unsupported'): continue
        # replay the verifier's model(s), then search harder around the same contract
        found = None
        exe_ok = os.path.exists('%s/%s.exe' % (work, h))
        if exe_ok:
            for b in bad:
                if b['model']:
                    mf = '%s/model.txt' % work
                    open(mf, 'w').write(''.join('%s = %s\n' % kv for kv in b['model'].items()))
                    rc, out, err = native_run(h, work, c, seed, 1, 60, replay=mf)
                    if rc == 1:
                        found = ((re.search(r'FAILED obligation: (.*)', out) or [None, '?'])[1], out, err)
                        break
            if not found:
                for k in range(3 if not deep else 8):
                    rc, out, err = native_run(h, work, c, seed + 1000 * (k + 1), 10**9, 10 if not deep else 30)
                    if rc == 1:
                        found = ((re.search(r'FAILED obligation: (.*)', out) or [None, '?'])[1], out, err)
                        break
        if found:
            f = rfile(c)
            write_replay(f, pid, h, c, found[0], found[1], [p], found[2])
            if not is_known(c, found[0], found[1]): viol.append((c, found[0], f, True))
        elif bad:
            f = rfile(c)
            lab = '; '.join(b['label'] for b in bad)
            write_replay(f, pid, h, c, lab, '', [p], '')
            if not all(is_known(c, b['label'], '') for b in bad): viol.append((c, lab, f, False))
    # ---- evidence
    def bound(p): return meta[p['harness']][4].get(p['contract'])
    full = [p for p in proofs if not bound(p)]
    part = [p for p in proofs if bound(p)]
    nob = sum(p['obligations'] for p in full)
    ndis = sum(p['discharged'] for p in full)
    be = {}
    for p in full:
        for k, v in p['backends'].items(): be[k] = be.get(k, 0) + v
    funcs = sorted(set(f for p in proofs for f in p['functions'] ))
    assumptions = sorted(set(a for p in proofs for a in p['assumptions'])) + P.get('assumes', [])
    samples = [dict(contract=r['contract'], runs=r['runs'], discarded=r['discarded'], covers=r['covers']) for r in runs]
    unproved = [dict(contract=p['contract'], end=p['end'], failed=[dict(label=b['label'], status=b['status'], where=b['where'][:200]) for b in p['failed']]) for p in proofs if p['end'] != 'complete' or p['failed']]
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'], wall_s=round(time.time() - t0, 2), violations=len(viol), assumptions=assumptions,
              coverage=dict(
                  obligations=nob, discharged=ndis, backends=be,
                  checker_cmd='python3-vt /verif/check.py %s' % pid,
                  solver_seconds=round(sum(p['solver'] for p in proofs), 2), solver_queries=sum(p['queries'] for p in proofs),
                  contracts=[dict(name=p['contract'], harness=p['harness'], arithmetic=p['mode'], end=p['end'], obligations=p['obligations'], discharged=p['discharged'], paths=p['paths'], loops_cut=p['loops_cut'],
                                  covers={k: str(v) for k, v in p['covers'].items()}, wall=round(p['wall'], 2), bound=bound(p)) for p in sorted(proofs, key=lambda p: p['contract'])],
                  bounded_obligations=sum(p['obligations'] for p in part), bounded_discharged=sum(p['discharged'] for p in part),
                  bounded_contracts=['%s: %s' % (p['contract'], bound(p)) for p in part],
                  functions_under_contract=[f[:240] for f in funcs], functions_count=len(funcs),
                  not_proved=unproved, bounded_instead_of_proved=bounded + sorted(n for h in hs for n, k in meta[h][0].items() if k == 'BOUNDED'),
                  native_runs=sum(r['runs'] for r in runs), native_discarded=sum(r['discarded'] for r in runs), samples=samples,
                  trusted_base=TRUSTED + P.get('trusted', []), notes=notes, known_findings_hit=sorted(hit)))
    if P['level'] == 'other':
        ev['coverage']['explanation'] = ('All contracts of this property fix the size of the data structure (bounded_contracts states the bound); within it %d of %d obligations are discharged for all values by the same verifier, '
                                         'and %d seeded native runs of the contracts agree. Nothing here is counted as proved.' % (sum(p['discharged'] for p in part), sum(p['obligations'] for p in part), sum(r['runs'] for r in runs)))
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open('%s/evidence/%s.json' % (ROOT, pid), 'w'), indent=1)
    for k in known:
        if k['id'] in hit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s %s: %d contracts proved of %d, %d/%d obligations discharged (%s), %d/%d more within stated bounds, %d functions of the code under contract, %d native runs, %.1fs' %
          (pid, tier, sum(p['end'] == 'complete' and not p['failed'] for p in proofs), len(proofs), ndis, nob, ', '.join('%s %d' % kv for kv in sorted(be.items())), sum(p['discharged'] for p in part), sum(p['obligations'] for p in part), len(funcs), sum(r['runs'] for r in runs), time.time() - t0))
    for b in bounded: print('BOUNDED (not proved):', b)
    for n in notes: print('note:', n)
    for c, lab, f, concrete in viol:
        print('failed obligation in contract %s: %s' % (c, lab))
    for c, lab, f, concrete in viol:
        print('VIOLATION property=%s replay=%s%s' % (pid, f, '' if concrete else ' no-failing-input-found'))
    return 1 if viol else 0


TRUSTED = ['vx (/verif/vx): IR parser, symbolic executor, obligation generator', 'clang 18 front end and the LLVM inlining/SROA/simplifycfg passes that produce the IR', 'z3 and cvc5',
           'stand-ins in /verif/stubs for the libraries that are not installed (nda, h5, mpi, itertools, cppdlr): their eager re-implementation is executed as code, not proved against the originals',
           'libstdc++ headers are executed as code; its out-of-line parts (operator new, red-black tree rebalancing, exceptions, text output) have assumed contracts in vx/handlers.py']


def write_replay(f, pid, h, c, lab, out, proofs, err):
    with open(f, 'w') as o:
        o.write('# property %s, harness %s, contract %s\n# failed obligation: %s\n' % (pid, h, c, lab))
        o.write('# replay: python3-vt /verif/check.py --replay %s\n' % f)
        m = re.search(r'INPUTS seed=(\d+) iter=(\d+)\n(.*)', out, re.S)
        if m:
            o.write('# inputs found by a native run against the real code\n')
            o.write('__seed = %s\n__iter = %s\n' % (m.group(1), m.group(2)))
            o.write(m.group(3))
        else:
            o.write('# no failing input found: the obligation is one the verifier could not discharge\n')
        for p in proofs:
            o.write('# verifier: %s (%s) %s; %d obligations, %d discharged\n' % (p['contract'], p['mode'], p['end'].replace('\n', ' '), p['obligations'], p['discharged']))
            for b in p['failed']:
                o.write('#   %s: %s at %s\n#     condition: %s\n#     model: %s\n' % (b['status'], b['label'], b['where'], str(b['detail']).replace('\n', ' '), b['model']))
        if err: o.write(''.join('# stderr: %s\n' % l for l in err.strip().split('\n')[-15:]))


def replay_file(f):
    txt = open(f).read()
    h, c = re.search(r'harness (\w+), contract (\w+)', txt).groups()
    work = tempfile.mkdtemp(prefix='vx-replay-')
    try:
        r = t_native(h, work)
        if r[2]:
            print(r[2])
            return 1
        rc, out, err = native_run(h, work, c, 1, 1, 60, replay=f)
        print(out, err)
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__': sys.exit(main())
