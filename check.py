#!/opt/veriftools/pyvenv/bin/python
"""Decide one property:  check.py <property id> [--replay FILE]

 1. /repo's current sources are compiled to bitcode (through the drivers, which only
    instantiate templates and name private offsets) and every function under contract is
    verified: each obligation goes to z3 (cvc5 as second back end).
 2. The bounded native harness of the property runs the same sources against a reference.
    It replays what a failed obligation says in terms of inputs, and stands in (labelled
    bounded, never counted as proved) for what has no contract.
"""
import json, os, subprocess, sys, threading, time, re, importlib, struct
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/engine', V + '/specs']
import runner, ir, vc
from runner import Build, BuildError, REPO
import props

TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EVID = os.path.join(V, 'evidence')


def src_path(s):
    return s.replace('REPO/', REPO + '/') if s.startswith('REPO/') else os.path.join(V, s)


def build_driver(b, name, d):
    d = dict(src=d) if isinstance(d, list) else d
    kw = {}
    if 'passes' in d:
        kw['passes'] = d['passes']
    return b.bitcode(name, [src_path(s) for s in d['src']], d.get('flags', ()), **kw)


def run_harness(exe, h, b, shard, shards, scale=1.0):
    log = os.path.join(b.dir, os.path.basename(exe) + '.%d.log' % shard)
    secs = h.get('seconds', 8) * (8 if TIER == 'thorough' else 1) * scale
    cmd = [exe, '--seed', str(SEED), '--seconds', str(secs), '--from', str(shard * 10 ** 9), '--log', log] + h.get('args', [])
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=%d:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=0' % (1 if h.get('leaks', True) else 0)
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    t0 = time.time()
    scratch = os.path.join(b.dir, 'cwd.%s.%d' % (os.path.basename(exe), shard))
    os.makedirs(scratch, exist_ok=True)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=env, cwd=scratch,
                           timeout=secs + 120 + (400 if TIER == 'thorough' else 0))
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = -1000, (e.stdout or b'').decode('utf8', 'replace'), 'harness exceeded its wall clock limit'
    r = dict(harness=h['src'][0], args=cmd[1:], rc=rc, secs=round(time.time() - t0, 2))
    m = re.search(r'OK cases=(\d+) nontrivial=(\d+) checks=(\d+)', out)
    try:
        raw = open(log, 'rb').read(1 << 19)
        cno, nt, ck, ln = struct.unpack('<QQQQ', raw[:32])
        text = raw[32:32 + ln].decode('utf8', 'replace')
    except Exception:
        cno, nt, ck, text = 0, 0, 0, ''
    r['cases'] = int(m.group(1)) if m else cno - shard * 10 ** 9
    r['nontrivial'] = int(m.group(2)) if m else nt
    r['checks'] = int(m.group(3)) if m else ck
    r['sample'] = text[:1500]
    r['known'] = re.findall(r'^KNOWN (.*)$', out, re.M)
    r['ok'] = rc == 0 and m is not None
    if not r['ok']:
        r['seed'], r['case'] = SEED, cno
        r['output'] = (out[-3000:] + '\n' + err[-6000:]).strip()
        r['log'] = text
    return r


def main():
    pid = sys.argv[1]
    t0 = time.time()
    P = props.PROPS[pid]
    os.makedirs(EVID, exist_ok=True)
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        return replay(pid, P, sys.argv[3])
    b = Build()
    try:
        return decide(pid, P, b, t0)
    finally:
        b.close()


def replay(pid, P, path):
    j = json.load(open(path))
    b = Build()
    try:
        for h in P.get('harness', []):
            if h['src'][0] == j.get('harness'):
                exe = b.harness('h', [src_path(s) for s in h['src']], h.get('flags', ()), h.get('libs', ()), h.get('san', True))
                return subprocess.run([exe, '--seed', str(j['seed']), '--only', str(j['case'])]).returncode
        print(json.dumps(j, indent=1)[:6000])
        return 0
    finally:
        b.close()


def unproved(r):
    return sum(o['result'] != 'proved' for o in r['obls']) + (1000 if 'time' in (r.get('unsupported') or '') else 0)


def decide(pid, P, b, t0):
    b.includes()
    results, undecided, hres, berr, again = [], [], [], [], []
    specs = [(importlib.import_module(s[0]), s[1] if len(s) > 1 else '') for s in P.get('specs', [])]

    exes = {}

    def harness_build(k, h):
        try:
            exes[k] = b.harness('h%d' % k, [src_path(s) for s in h['src']], h.get('flags', ()), h.get('libs', ()), h.get('san', True), h.get('opt', '-O1'))
        except BuildError as e:
            berr.append('%s: %s' % (h['src'][0], e))

    def harness_main():
        ths = [threading.Thread(target=harness_build, args=(k, h)) for k, h in enumerate(P.get('harness', []))]
        [t.start() for t in ths]
        [t.join() for t in ths]
        runs = []

        def go(k, h, s, n):
            hres.append(run_harness(exes[k], h, b, s, n))
        for k, h in enumerate(P.get('harness', [])):
            if k in exes:
                n = h.get('shards', 2)
                for s in range(n):
                    t = threading.Thread(target=go, args=(k, h, s, n))
                    t.start()
                    runs.append(t)
        [t.join() for t in runs]
    hm = threading.Thread(target=harness_main)
    hm.start()

    ctx_mods, tasks = {}, []
    dthreads, dout = [], {}

    def dbuild(name, d):
        try:
            dout[name] = build_driver(b, name, d)
        except BuildError as e:
            dout[name] = e
    for spec, pat in specs:
        for k, d in spec.DRIVERS.items():
            if k not in dout:
                dout[k] = None
                t = threading.Thread(target=dbuild, args=(k, d))
                t.start()
                dthreads.append(t)
    [t.join() for t in dthreads]
    for spec, pat in specs:
        mods = {}
        bad = None
        for k in spec.DRIVERS:
            if isinstance(dout[k], Exception):
                bad = dout[k]
            else:
                try:
                    mods[k] = ir.Module(dout[k])
                except Exception as e:
                    bad = e
        names = [t for t in (spec.TASKS if hasattr(spec, 'TASKS') else []) if re.search(pat, t.name)]
        if bad is not None:
            for t in names:
                undecided.append((t.name, 'driver does not build: %s' % str(bad)[-600:]))
            continue
        ctx = {'mods': mods, 'build': b}
        try:
            if hasattr(spec, 'tasks'):
                names = [t for t in spec.tasks(ctx) if re.search(pat, t.name)]
            rs = runner.run_tasks(names, ctx, ms=15000 if TIER == 'quick' else 60000, jobs=6 if hm.is_alive() else 8)
            again += [(t, ctx, len(results) + k) for k, t in enumerate(names) if unproved(rs[k])]
            results += rs
        except Exception as e:
            undecided.append((spec.__name__, 'specification does not apply: %s: %s' % (type(e).__name__, e)))
    hm.join()
    if again and all(h['ok'] for h in hres):
        # a machine under load runs solvers into their time limits: once more, with fewer at a time and longer limits
        vc.SLOW = 8
        stop = time.time() + max(60, 420 - (time.time() - t0))
        for ctx in {id(c): c for _, c, _ in again}.values():
            mine = [(t, k) for t, c, k in again if c is ctx]
            rs = runner.run_tasks([t for t, _ in mine], ctx, ms=30000 if TIER == 'quick' else 90000, jobs=4, budget=max(10, stop - time.time()))
            for (t, k), r in zip(mine, rs):
                if not r.get('unsupported') and unproved(r) < unproved(results[k]):
                    results[k] = r
        vc.SLOW = 1

    failed, nobl, ndis, secs = [], 0, 0, 0.0
    backends, kinds, funcs, assumptions, inlined = {}, {}, [], set(), set()
    for r in results:
        if r.get('unsupported'):
            undecided.append((r['task'], r['unsupported']))
        bad = [o for o in r['obls'] if o['result'] != 'proved']
        nobl += len(r['obls'])
        ndis += len(r['obls']) - len(bad)
        for o in r['obls']:
            secs += o['secs']
            if o['result'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
        for o in bad:
            failed.append(dict(function=r['task'], **o))
        assumptions |= set(r.get('assumptions', ()))
        inlined |= set(r.get('inlined', ()))
        funcs.append(dict(function=r['task'], obligations=len(r['obls']), discharged=len(r['obls']) - len(bad), secs=r['secs'],
                          status='undecided: ' + r['unsupported'][:300] if r.get('unsupported') else 'proved' if not bad else 'FAILED'))
    hfail = [h for h in hres if not h['ok']]
    known = load_known(pid)
    viol = None
    klines = []
    seen = sorted(set(k for h in hres for k in h['known']))
    for k in seen:
        ent = [x for x in known if k.split(':')[0].split()[0] == x[0]]
        if ent:
            klines.append('KNOWN-FINDING: property=%s %s' % (pid, ent[0][1]))
        else:
            hfail.append(dict(ok=False, harness='', output='finding not listed: ' + k, log='', seed=SEED, case=0, args=[], rc=0, secs=0, cases=0, nontrivial=0, checks=0, known=[]))
    kf = [x for x in failed if any(x['function'] + '/' + x['label'] == y[0] for y in known)]
    for x in kf:
        klines.append('KNOWN-FINDING: property=%s %s' % (pid, [y[1] for y in known if y[0] == x['function'] + '/' + x['label']][0]))
    failed = [x for x in failed if x not in kf]
    suffix = ''
    if failed and not hfail and P.get('harness'):
        # search longer for an input that shows what the failed obligation says
        for k, h in enumerate(P['harness']):
            if k in exes:
                ths = []

                def go2(k=k, h=h, s=0):
                    hres.append(run_harness(exes[k], h, b, 100 + s, 1, 3.0))
                for s in range(4):
                    t = threading.Thread(target=go2, kwargs=dict(s=s))
                    t.start()
                    ths.append(t)
                [t.join() for t in ths]
        hfail = [h for h in hres if not h['ok']]
    if hfail or failed:
        path = os.path.join(EVID, '%s.replay.json' % pid)
        rep = dict(property=pid, failed_obligations=failed[:40])
        if hfail:
            h = hfail[0]
            rep.update(harness=h['harness'], seed=h.get('seed'), case=h.get('case'), failing_input=h.get('log'), output=h.get('output'),
                       how='%s check.py %s --replay %s' % ('python3-vt', pid, path))
        else:
            rep['note'] = 'no failing input found; the failed obligations and the model of the solver are above'
            suffix = ' no-failing-input-found'
        json.dump(rep, open(path, 'w'), indent=1)
        viol = 'VIOLATION property=%s replay=%s%s' % (pid, path, suffix)
    nothing = not (nobl or any(h['ok'] for h in hres))
    cov = dict(
        obligations=nobl, discharged=ndis,
        checker_cmd='python3-vt check.py %s' % pid,
        trusted_base=sorted(assumptions) + props.TRUSTED + P.get('trusted', []),
        functions_under_contract=funcs,
        functions_proved=sum(1 for f in funcs if f['status'] == 'proved'),
        undecided=[dict(function=f, reason=w[:500]) for f, w in undecided],
        back_ends=backends, obligation_kinds=kinds, solver_seconds=round(secs, 3),
        functions_executed_in_place=sorted(inlined)[:200],
        failed_obligations=[dict(function=f['function'], label=f['label'], where=f['where'], result=f['result']) for f in failed][:40],
        bounded=dict(label='bounded (not counted as proved)',
                     what=P.get('bounded', ''),
                     runs=[{k: h[k] for k in ('harness', 'args', 'cases', 'nontrivial', 'checks', 'secs', 'rc')} for h in hres],
                     samples=[h.get('sample', '')[:600] for h in hres[:2]], build_errors=berr),
        evaluations=sum(h['cases'] for h in hres), distinct_nontrivial=sum(h['nontrivial'] for h in hres),
        rule='obligations: one per contract clause, loop invariant, memory access, call precondition and path; bounded cases: one per (seed, case number)',
    )
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P.get('level', 'proof'), coverage=cov,
              assumptions=sorted(assumptions) + P.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if P.get('level') == 'exploration':
        cov['samples'] = [h.get('sample', '')[:600] for h in hres[:3]]
    json.dump(ev, open(os.path.join(EVID, '%s.json' % pid), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d functions proved, %d undecided; bounded: %d cases, %d checks; %.1fs' %
          (pid, nobl, ndis, cov['functions_proved'], len(undecided), cov['evaluations'], sum(h['checks'] for h in hres), time.time() - t0))
    for f, w in undecided:
        print('  undecided: %s: %s' % (f, w[:200].replace('\n', ' ')))
    for f in failed[:10]:
        print('  failed obligation: %s: %s %s [%s]' % (f['function'], f['label'], f['where'], f['result']))
    for h in hfail[:2]:
        print('  harness: %s' % (h.get('output') or '')[:600].replace('\n', '\n    '))
    for e in berr:
        print('  harness does not build: ' + e[-800:])
    for k in klines:
        print(k)
    if viol:
        print(viol)
        return 1
    if nothing:
        print('nothing could be decided')
        return 2
    return 0


def load_known(pid):
    """lines 'known: property=<id> key=<key> | <text>'; 'fixed:' lines suppress nothing"""
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(.*?) \| (.*)$', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


if __name__ == '__main__':
    sys.exit(main())
