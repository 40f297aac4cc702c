#!/opt/veriftools/pyvenv/bin/python
"""development aid: run the contract tasks of one spec and print the obligations that are not discharged"""
import sys, os, importlib, re, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/engine', V + '/specs']
import runner, ir
spec = importlib.import_module(sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ''
b = runner.Build()
try:
    t0 = time.time()
    mods = {}
    for k, v in spec.DRIVERS.items():
        src = v if isinstance(v, list) else v['src']
        fl = [] if isinstance(v, list) else v.get('flags', [])
        src = [s.replace('REPO/', runner.REPO + '/') if s.startswith('REPO/') else V + '/' + s for s in src]
        mods[k] = ir.Module(b.bitcode(k, src, fl, **({} if isinstance(v, list) or 'passes' not in v else dict(passes=v['passes']))))
    print('build %.1fs' % (time.time() - t0))
    tasks = [t for t in (spec.tasks({'mods': mods}) if hasattr(spec, 'tasks') else spec.TASKS) if re.search(pat, t.name)]
    res = runner.run_tasks(tasks, {'mods': mods, 'build': b})
    n = d = 0
    for r in res:
        bad = [o for o in r['obls'] if o['result'] != 'proved']
        n += len(r['obls']); d += len(r['obls']) - len(bad)
        print('%-60s obls %4d bad %d  paths %s ret %s loops %s  %.1fs %s' % (r['task'], len(r['obls']), len(bad), r.get('paths'), r.get('returns'), r.get('loops'), r['secs'], ('UNSUPPORTED ' + r['unsupported']) if r.get('unsupported') else ''))
        for o in bad:
            print('    ', o['result'], o['label'], '|', o['where'], '| %.1fs' % o['secs'])
            if '-v' in sys.argv:
                print('        goal:', o['goal']); print('        model:', o['model'])
        if r.get('unsupported') and '-v' in sys.argv:
            print(r.get('tb'))
        if '-d' in sys.argv:
            print('   dropped:', r.get('dropped'))
    print('obligations', n, 'discharged', d, 'max secs', max((o['secs'] for r in res for o in r['obls']), default=0), 'wall %.1f' % (time.time() - t0))
finally:
    b.close()
