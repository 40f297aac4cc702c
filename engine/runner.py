"""Build step, task pool, reporting.  See check.py."""
import json, os, subprocess, sys, time, hashlib, shutil, tempfile, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ir, vc
from vc import Unsupported, Obligation, prove

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CLANGXX = next((p for p in ('/usr/lib/llvm-18/bin/clang++', '/usr/bin/clang++-18', '/usr/bin/clang++') if os.path.exists(p)), 'clang++')
OPT = next((p for p in ('/usr/lib/llvm-18/bin/opt', '/usr/bin/opt-18', '/usr/bin/opt') if os.path.exists(p)), 'opt')
LINK = next((p for p in ('/usr/lib/llvm-18/bin/llvm-link', '/usr/bin/llvm-link-18') if os.path.exists(p)), 'llvm-link')
CXXFLAGS = ['-std=gnu++14', '-DSYS_POSIX', '-DNDEBUG', '-Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype', '-Wno-everything', '-ffp-contract=off']
PASSES = 'lowerinvoke,function(sroa,simplifycfg,early-cse,simplifycfg,loop-simplify)'


class BuildError(Exception):
    pass


class Build:
    """one scratch directory per run, removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vlintel-')
        self.mods = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def includes(self):
        gen = os.path.join(self.dir, 'geninc')
        if not os.path.isdir(gen):
            os.makedirs(os.path.join(gen, 'Lintel'))
            gen_headers(gen)
        return ['-I%s/include' % REPO, '-I%s' % gen, '-I%s/src' % REPO]

    def bitcode(self, name, sources, flags=(), passes=PASSES):
        outs = []
        for s in sources:
            o = os.path.join(self.dir, name + '.' + os.path.basename(s) + '.bc')
            cmd = [CLANGXX] + CXXFLAGS + list(flags) + ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only',
                   '-fno-access-control'] + self.includes() + ['-emit-llvm', '-c', s, '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError('%s: %s' % (s, r.stderr[-3000:]))
            outs.append(o)
        linked = outs[0]
        if len(outs) > 1:
            linked = os.path.join(self.dir, name + '.l.bc')
            r = subprocess.run([LINK] + outs + ['-o', linked], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(r.stderr[-3000:])
        f = os.path.join(self.dir, name + '.opt.bc')
        r = subprocess.run([OPT, '-passes=' + passes, linked, '-o', f], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        return f

    def harness(self, name, sources, flags=(), libs=(), san=True, opt='-O1'):
        """native executable of a replay / bounded harness from the real sources (compiled in parallel)"""
        exe = os.path.join(self.dir, name)
        base = ['g++', '-std=gnu++14', opt, '-g', '-DSYS_POSIX', '-DNDEBUG',
                '-Dpthread_mutexattr_setkind_np=pthread_mutexattr_settype', '-w', '-fno-access-control'] + list(flags)
        if san:
            base += SAN
        base += self.includes() + ['-I%s/replay' % VERIF]
        procs, objs = [], []
        for k, s in enumerate(sources):
            o = os.path.join(self.dir, '%s.%d.o' % (name, k))
            objs.append(o)
            procs.append((s, subprocess.Popen(base + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        err = None
        for s, p in procs:
            out = p.communicate()[0]
            if p.returncode:
                err = err or '%s: %s' % (s, out[-3000:])
        if err:
            raise BuildError('harness %s: %s' % (name, err))
        r = subprocess.run(['g++'] + (SAN if san else []) + objs + ['-o', exe] + list(libs) + ['-lpthread'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('harness %s: %s' % (name, r.stderr[-3000:]))
        return exe


SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,null,nonnull-attribute', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']


def gen_headers(gen):
    """headers the project's cmake generates from *.in (only PThread.hpp)"""
    src = os.path.join(REPO, 'include/Lintel')
    for f in os.listdir(src):
        if f.endswith('.in'):
            t = open(os.path.join(src, f)).read()
            import re
            built = os.path.join(REPO, '_build/include/Lintel', f[:-3])
            t = t.replace('@HAS_PTHREAD_ISLOCKED@', '1').replace('@PTHREAD_ISLOCKED_EXPR@', 'm.__data.__lock != 0')   # what cmake's probe finds with glibc
            t = re.sub(r'@[A-Za-z_]+@', '', t)
            t = re.sub(r'#cmakedefine01 (\w+).*', r'#define \1 1', t)
            t = re.sub(r'#cmakedefine (\w+)(.*)', r'#define \1\2', t)
            open(os.path.join(gen, 'Lintel', f[:-3]), 'w').write(t)


class Task:
    """one function (or function variant) under contract"""

    def __init__(self, name, run, props=None, group=None, timeout=300):
        self.name, self.run, self.timeout = name, run, timeout


def _worker(q, task, ctx, ms):
    t0 = time.time()
    out = dict(task=task.name, obls=[], error=None, unsupported=None)
    failed = int(os.environ.get('FASTFAIL', 0))
    try:
        engs = task.run(ctx)
        if not isinstance(engs, list):
            engs = [engs]
        for e in engs:
            for o in e.obls:
                if o.result is None:
                    if o.pc is None:
                        o.result, o.backend = 'proved', 'trivial'
                    else:
                        # when obligations of this task fail already, less effort on the others
                        short = failed >= 2
                        o.result, o.backend, o.secs, m = prove(o.pc, o.goal, 3000 if short else ms, fallback=not short)
                        failed += o.result != 'proved'
                        if o.result != 'proved' and m is not None:
                            o.model = str(m)[:4000]
                out['obls'].append(dict(label=o.label, where=o.where, kind=o.kind, result=o.result, backend=o.backend,
                                        secs=round(o.secs, 4), model=o.model, goal=None if o.result == 'proved' else str(o.goal)[:1500]))
            out.setdefault('assumptions', set()).update(e.assumptions)
            for k in ('inlined', 'contracts'):
                out.setdefault(k, set()).update(e.stats[k])
            for k in ('paths', 'loops', 'steps', 'throws'):
                out[k] = out.get(k, 0) + e.stats[k]
            out.setdefault('dropped', []).extend(e.stats['dropped'])
            out['returns'] = out.get('returns', 0) + getattr(e, 'returns', 0)
            if getattr(e, 'expect_return', True) and not getattr(e, 'returns', 0):
                out['obls'].append(dict(label='vacuity guard: the function can return', where=task.name, kind='vacuity', result='unknown',
                                        backend='', secs=0, model=None, goal='no feasible return path'))
    except Unsupported as e:
        out['unsupported'] = str(e)
        out['tb'] = traceback.format_exc()[-1500:]
    except RecursionError:
        out['unsupported'] = 'recursion limit'
    except Exception as e:
        out['unsupported'] = 'internal: %s: %s' % (type(e).__name__, e)
        out['tb'] = traceback.format_exc()[-3000:]
    out['secs'] = round(time.time() - t0, 3)
    for k in ('assumptions', 'inlined', 'contracts'):
        out[k] = sorted(out.get(k, ()))
    q.put(out)


def run_tasks(tasks, ctx, ms=15000, jobs=None, timeout=None, budget=None):
    """budget: seconds for all of them together"""
    start = time.time()
    jobs = jobs or min(8, os.cpu_count() or 4)
    pending = list(tasks)
    running = []
    results = {}
    while pending or running:
        while pending and len(running) < jobs:
            t = pending.pop(0)
            q = mp.Queue()
            p = mp.Process(target=_worker, args=(q, t, ctx, ms))
            p.start()
            running.append((t, q, p, time.time()))
        time.sleep(0.01)
        for r in list(running):
            t, q, p, t0 = r
            got = None
            if not q.empty():
                got = q.get()
            elif not p.is_alive():
                time.sleep(0.05)
                got = q.get() if not q.empty() else dict(task=t.name, obls=[], unsupported='worker died', secs=time.time() - t0)
            elif time.time() - t0 > (timeout or t.timeout) or budget and time.time() - start > budget:
                p.kill()
                got = dict(task=t.name, obls=[], unsupported='task time limit', secs=time.time() - t0)
            if got is not None:
                results[t.name] = got
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.remove(r)
    return [results[t.name] for t in tasks]
