"""check.py PROPERTY [quick|thorough]  --  decides one property on /repo's current sources."""
import sys, os, time, json, importlib, traceback, threading, subprocess, multiprocessing as mp, signal, pickle, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, llvmir, lib
from vc.engine import Engine, Unsupported, NeedBytes, NeedCut
from vc.build import BuildError, VERIF, REPO


class Result:
    def __init__(self, name):
        self.name = name
        self.obls = []
        self.unsupported = None
        self.inlined = {}
        self.contracted = {}
        self.loops = []
        self.paths = 0
        self.secs = 0.0
        self.qtime = 0.0
        self.queries = 0
        self.covers = []
        self.error = None
        self.notes = []


def run_task(module, spec, name, fn, limit):
    """an obligation that fails where the solver gave no answer about a loop invariant is tried again with more time, and undecided then"""
    r, weak = run_task1(module, spec, name, fn, limit)
    if weak and any(o['status'] == 'failed' for o in r.obls):
        r2, weak = run_task1(module, spec, name, fn, limit, 5)
        r2.secs += r.secs
        r = r2
        if weak:
            for o in r.obls:
                if o['status'] == 'failed':
                    o['status'] = 'unknown'
                    o['detail'] = 'after a loop invariant the solver gave no answer about: %s\n%s' % (weak[0], o['detail'])
    return r


def run_task1(module, spec, name, fn, limit, slow=1):
    r = Result(name)
    t0 = time.time()
    E = Engine(module, list(getattr(spec, 'HANDLERS', [])) + lib.BASE, {})
    E.task = name
    E.deadline = t0 + limit
    if slow > 1:
        E.S.tinc *= slow
        E.S.inc.set('timeout', E.S.tinc)
    try:
        fn(E)
    except (Unsupported, NeedBytes, NeedCut) as e:
        r.unsupported = '%s: %s [in %s]' % (type(e).__name__, e, ' > '.join(x[:90] for x in getattr(e, 'vstack', E.stack)[-4:]))
        if os.environ.get('VC_DEBUG') == '2':
            traceback.print_exc()
    except Exception as e:
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
        r.unsupported = 'verifier error: %s [in %s]' % (traceback.format_exc()[-1500:], ' > '.join(x[:90] for x in getattr(e, 'vstack', E.stack)[-4:]))
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc(); print('STACK', [x[:90] for x in getattr(e, 'vstack', E.stack)[-4:]], file=sys.stderr)
    r.obls = [dict(name=o.name, kind=o.kind, status=o.status, time=round(o.time, 3), backend=o.backend, detail=o.detail,
                   hook=getattr(o, 'hook', None) if o.status not in ('proved',) else None) for o in E.obls]
    r.inlined, r.contracted = E.inlined, E.contracted
    r.loops = E.loop_info
    r.paths = E.paths
    r.covers = getattr(E, 'covers', [])
    r.secs = time.time() - t0
    r.qtime, r.queries = E.S.qtime, E.S.nq
    if os.environ.get('VC_WEAK') and E.weak:
        print('WEAK', name, E.weak[:3], file=sys.stderr)
    return r, E.weak


def _worker(module, spec, name, fn, limit, q):
    try:
        r = run_task(module, spec, name, fn, limit)
    except BaseException:
        r = Result(name)
        r.unsupported = 'verifier error: ' + traceback.format_exc()[-1500:]
    try:
        q.send_bytes(pickle.dumps(r))
    except Exception:
        r.obls = [dict(o, hook=None) for o in r.obls]
        q.send_bytes(pickle.dumps(r))
    q.close()
    os._exit(0)


def run_tasks(module, spec, tasks, limit, jobs=8, total=450):
    """each task in its own forked process"""
    pend = list(tasks)
    live = []
    res = {}
    start = time.time()
    while pend or live:
        while pend and len(live) < jobs:
            name, fn = pend.pop(0)
            if time.time() - start > total:
                r = Result(name)
                r.unsupported = 'time limit of the check'
                res[name] = r
                continue
            a, b = mp.Pipe(False)
            pid = os.fork()
            if pid == 0:
                a.close()
                try:
                    _worker(module, spec, name, fn, limit, b)
                finally:
                    os._exit(0)
            b.close()
            live.append((pid, name, a, time.time()))
        for L in list(live):
            pid, name, a, t0 = L
            done = False
            if a.poll(0.02):
                try:
                    res[name] = pickle.loads(a.recv_bytes())
                except EOFError:
                    r = Result(name)
                    r.unsupported = 'verifier process ended'
                    res[name] = r
                done = True
            elif time.time() - t0 > 2 * limit + 60 or time.time() - start > total:
                os.kill(pid, signal.SIGKILL)
                r = Result(name)
                r.unsupported = 'time limit'
                r.secs = time.time() - t0
                res[name] = r
                done = True
            if done:
                a.close()
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                live.remove(L)
    return [res[n] for n, _ in tasks]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    spec = importlib.import_module('vc.specs.' + prop.lower())
    B = build.Build()
    try:
        rc = check(prop, tier, seed, spec, B, t0, only)
    finally:
        B.close()
    sys.stdout.flush()
    os._exit(rc)


def check(prop, tier, seed, spec, B, t0, only):
    note = []
    results = []
    harness_out = {}
    known = load_known(prop)
    gen_err = None
    try:
        B.gen()
    except BuildError as e:
        gen_err = str(e)
    # --- native harness, built in the background
    hn = getattr(spec, 'HARNESS', None)

    def build_h():
        try:
            harness_out['exe'] = B.exe(prop, hn['srcs'], hn.get('flags', ()), hn.get('libs', ()), hn.get('sanitize', 'address,undefined'),
                                       hn.get('opt', '-O1'))
        except BuildError as e:
            harness_out['err'] = str(e)
    th = None
    if hn and not gen_err and not os.environ.get('VC_NOHARNESS'):
        th = threading.Thread(target=build_h)
        th.start()
    err = gen_err
    try:
        if gen_err:
            raise BuildError(gen_err)
        bc = B.ir(spec.SOURCES, getattr(spec, 'IRFLAGS', ()))
        module = llvmir.Module(bc)
    except BuildError as e:
        err = str(e)
    if th:
        th.join()
    limit = getattr(spec, 'LIMIT', 120 if tier == 'quick' else 600)
    undecided = []
    failed = []
    if err is None:
        try:
            tasks = spec.tasks(module)
        except Exception as e:
            tasks = []
            undecided.append('task construction: %s' % traceback.format_exc()[-800:])
        if only:
            tasks = [t for t in tasks if re.search(only, t[0])]
        results = run_tasks(module, spec, tasks, limit, 8, 450 if tier == 'quick' else 7200)
    else:
        undecided.append('the driver does not compile against /repo: ' + err[-800:])
    nob = ndis = 0
    for r in results:
        for o in r.obls:
            nob += 1
            if o['status'] == 'proved':
                ndis += 1
            elif o['status'] == 'failed':
                failed.append((r, o))
            else:
                undecided.append('%s: %s (%s)' % (o['name'], o['status'], o['backend']))
        if r.unsupported:
            undecided.append('%s: %s' % (r.name, r.unsupported))
        elif not r.obls:
            undecided.append('%s: no obligation generated' % r.name)
        for nm, ok in r.covers:
            if not ok:
                undecided.append('%s: vacuous: %s is unreachable' % (r.name, nm))
    # --- native runs: replay of counterexamples, and bounded validation of the trusted contracts
    hrun = None
    cex = [o['hook'] for r, o in failed if o.get('hook')]
    if hn and 'exe' in harness_out:
        hrun = run_harness(harness_out['exe'], B, hn, tier, seed, cex)
    elif hn and 'err' in harness_out:
        undecided.append('the native harness does not compile against /repo: ' + harness_out['err'][-600:])
    fails = (hrun or {}).get('fails', [])
    new_fails = []
    known_hit = set()
    for f in fails:
        k = match_known(known, f)
        if k is None:
            new_fails.append(f)
        else:
            known_hit.add(k)
    rc = 0
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    os.makedirs(VERIF + '/replay', exist_ok=True)
    rp = '%s/replay/%s.txt' % (VERIF, prop)
    for k in known:
        if known[k].get('kind') == 'finding':
            print('KNOWN-FINDING: property=%s %s' % (prop, known[k]['what']))
    nviol = 0
    if new_fails:
        with open(rp, 'w') as f:
            f.write('property %s violated on the real code\n\n' % prop)
            for x in new_fails[:20]:
                f.write('FAILING INPUT: %s\n' % x)
            f.write('\nreplay: build %s with the flags in vc/build.py (vc/check.py does it) and run it with --seed %d\n' % (hn['srcs'], seed))
            f.write('\n' + (hrun.get('out') or '')[-6000:])
            for r, o in failed[:10]:
                f.write('\nfailed obligation: %s [%s]\n%s\n' % (o['name'], o['kind'], o['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        for x in new_fails[:5]:
            print('  ' + x[:300])
        rc, nviol = 1, len(new_fails)
    elif failed:
        with open(rp, 'w') as f:
            f.write('property %s: obligations refuted by the verifier, no failing input found by the native harness\n' % prop)
            for r, o in failed[:40]:
                f.write('\nfailed obligation: %s [%s] backend %s\n%s\n' % (o['name'], o['kind'], o['backend'], o['detail']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        for r, o in failed[:5]:
            print('  failed obligation: %s' % o['name'][:300])
        rc, nviol = 1, len(failed)
    for u in undecided[:12]:
        print('UNDECIDED: ' + u[:700])
    inl, con, loops = {}, {}, []
    for r in results:
        for k, v in r.inlined.items():
            inl[k] = inl.get(k, 0) + v
        for k, v in r.contracted.items():
            con[k] = con.get(k, 0) + v
        for nm, n, sp in r.loops:
            e = dict(function=nm[:160], invariants=n, from_spec=len(sp))
            if e not in loops:
                loops.append(e)
    backends = {}
    for r in results:
        for o in r.obls:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    kinds = {}
    for r in results:
        for o in r.obls:
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    own = [k for k in inl if not k.startswith('std::') and not k.startswith('__gnu') and ' std::' not in k[:60]]
    proved_all = not undecided and not failed and nob > 0
    level = 'proof'
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3-vt vc/check.py %s %s  (z3 %s, cvc5; LLVM 18 IR of /repo at -O0)' % (prop, tier, z3ver()),
               trusted_base=sorted(set(getattr(spec, 'TRUSTED', []) + BASE_TRUST)),
               tasks=[dict(name=r.name, obligations=len(r.obls), paths=r.paths, queries=r.queries, solver_s=round(r.qtime, 2),
                           wall_s=round(r.secs, 2), status='undecided: ' + r.unsupported[:200] if r.unsupported else 'done') for r in results],
               functions_verified=sorted(k[:200] for k in own)[:400],
               library_functions_executed=len(inl) - len(own),
               contracts_used={k[:160]: v for k, v in sorted(con.items())},
               loops_by_invariant=loops, backends=backends, obligation_kinds=kinds,
               solver_s=round(sum(r.qtime for r in results), 2),
               undecided=[u[:400] for u in undecided], all_obligations_discharged=proved_all)
    if hrun is not None:
        cov['bounded_native'] = dict(label='bounded (not counted as proved): the real code run against an independent oracle; validates the '
                                     'trusted contracts and stands in for undecided obligations',
                                     cases=hrun.get('cases', 0), failing=len(fails), wall_s=round(hrun.get('secs', 0), 2),
                                     what=hn.get('what', ''))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(spec, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    with open('%s/evidence/%s.json' % (VERIF, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided notes; native cases %s, failing %d; %.1fs' % (
        prop, nob, ndis, len(failed), len(undecided), (hrun or {}).get('cases', '-'), len(fails), time.time() - t0))
    return rc


BASE_TRUST = ['clang 18 lowering of /repo at -O0 plus sroa,simplifycfg (translation to LLVM IR)', 'vc/engine.py verification-condition generator',
              'z3 and cvc5', 'exceptional edges: library calls are assumed not to throw except where a contract says so; a throw in the code is an obligation',
              'allocation succeeds', 'ska::flat_hash_map replaced by std::unordered_map (header not available offline)']


def z3ver():
    import z3
    return z3.get_version_string()


def run_harness(exe, B, hn, tier, seed, cex):
    t = time.time()
    inp = B.dir + '/cex.txt'
    with open(inp, 'w') as f:
        for c in cex:
            f.write(c + '\n')
    scratch = B.dir + '/scratch'
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:halt_on_error=1' % (1 if hn.get('leaks') else 0),
               UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1', TMPDIR=scratch, LSAN_OPTIONS='')
    cmd = [exe, '--seed', str(seed), '--tier', tier, '--cex', inp, '--dir', scratch]
    limit = hn.get('limit', 120) * (4 if tier == 'thorough' else 1)
    r = dict(fails=[], cases=0)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=limit, cwd=scratch)
        out = p.stdout.decode('latin1')
        code = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('latin1')
        code = 'timeout'
    last = ''
    for line in out.split('\n'):
        if line.startswith('FAIL '):
            r['fails'].append(line[5:])
        elif line.startswith('CASES '):
            r['cases'] = int(line[6:])
        elif line.startswith('TRY '):
            last = line[4:]
    if code not in (0, 1):
        m = re.search(r'(SUMMARY: .*|runtime error: .*|Assertion .*|terminate called.*|what\(\): .*)', out)
        if code == 'timeout':
            r['fails'].append('hang (no answer in %ds) after %s' % (limit, last))
        else:
            r['fails'].append('crash (exit %s) %s; case: %s' % (code, m.group(1)[:300] if m else '', last))
    elif code == 1 and not r['fails']:
        m = re.search(r'(SUMMARY: .*|runtime error: .*)', out)
        r['fails'].append('crash %s; case: %s' % (m.group(1)[:300] if m else out[-300:], last))
    r['out'] = out
    r['secs'] = time.time() - t
    return r


def load_known(prop):
    """entries of KNOWN_FINDINGS that suppress: `finding: property=<id> match=<substring> <what>`"""
    k = {}
    try:
        for i, line in enumerate(open(VERIF + '/KNOWN_FINDINGS')):
            m = re.match(r'^finding: property=(\S+) match=\[(.*?)\] (.*)$', line.strip())
            if m and m.group(1) == prop:
                k[i] = dict(kind='finding', match=m.group(2), what=m.group(3))
    except FileNotFoundError:
        pass
    return k


def match_known(known, f):
    for i, k in known.items():
        if k['match'] in f:
            return i
    return None


if __name__ == '__main__':
    main()
