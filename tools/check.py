#!/usr/bin/env python3
"""Driver: compile /repo's current sources to LLVM bitcode, run the symbolic
executor on the harnesses of one property, replay counterexamples natively.

  check.py C01            check one property (tier from VERIF_TIER / --tier)
  check.py --all          check every property
  check.py --replay FILE  re-run a recorded counterexample against /repo
"""
import argparse, threading, concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
REPO = os.environ.get('VF_REPO', '/repo')
from jobs import JOBS, PROPS, STUBBED   # noqa

COMMON = ['-std=c++17', '-DDEBUG', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG', '-include', 'string', '-include', 'utility', '-include', 'vector', '-include', 'iostream',
          '-include', 'algorithm', '-include', 'cassert', '-include', 'cstring', '-include', 'cmath', '-w', '-isystem', '/usr/include/eigen3']
NPROC = os.cpu_count() or 4
ONLY = set(os.environ.get('VF_ONLY', '').split())


def sh(cmd, timeout=600, env=None, cwd=None, mem=None):
    def lim():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=lim, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('latin1'), e.decode('latin1')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return 'timeout', o.decode('latin1'), e.decode('latin1')


def incs(job, symbolic):
    r = []
    srcs = job['src']
    if any(s in STUBBED for s in srcs) or job.get('stub'):
        r += ['-I' + V + '/rt/ggdatetime']
        if symbolic:
            r += ['-I' + V + '/rt/symio']
    return r + ['-I' + V + '/rt', '-I' + REPO + '/src'] + ['-D' + d for d in job.get('defs', [])]


def locked(f):
    def g(self, *a):
        with self.lock:
            return f(self, *a)
    return g


class Build:
    def __init__(self, tmp, tier):
        self.tmp, self.tier, self.done = tmp, tier, {}
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.lock = threading.RLock()

    @locked
    def obj(self, src, flags, tag):
        key = (src, tuple(flags))
        if key not in self.done:
            out = os.path.join(self.tmp, tag + hashlib.md5(repr(key).encode()).hexdigest()[:12])
            self.done[key] = self.pool.submit(self._one, src, flags, out)
        return self.done[key]

    def _one(self, src, flags, out):
        rc, o, e = sh(flags + ['-c', src, '-o', out])
        return (out, None) if rc == 0 else (None, '%s: %s' % (src, e[:1500]))

    def tierdef(self):
        return ['-DVF_THOROUGH=1'] if self.tier == 'thorough' else []

    def bitcode(self, job):
        fl = ['clang++', '-O1', '-g1', '-Xclang', '-disable-llvm-passes', '-emit-llvm'] + COMMON
        ic = incs(job, True)
        fs = [self.obj(V + '/rt/runtime.cpp', fl[:6] + ['-std=c++17', '-w', '-fno-builtin', '-D__NO_INLINE__', '-I' + V + '/rt'], 'rt')]
        fs.append(self.obj(V + '/harness/%s.cpp' % job['file'], fl + ic + self.tierdef(), 'h'))
        fs += [self.obj(REPO + '/src/%s.cpp' % s, fl + ic, 's') for s in job['src']]
        if '-I' + V + '/rt/symio' in ic:
            fs.append(self.obj(V + '/rt/symio/symio.cpp', fl + ic, 'io'))
        return fs

    @locked
    def link(self, job):
        key = ('link', job['file'], tuple(job['src']), tuple(job.get('defs', [])), bool(job.get('stub')))
        if key not in self.done:
            fs = self.bitcode(job)

            def go():
                objs = []
                for f in fs:
                    o, e = f.result()
                    if e:
                        return None, e
                    objs.append(o)
                out = os.path.join(self.tmp, 'l' + hashlib.md5(repr(key).encode()).hexdigest()[:12])
                rc, o, e = sh(['llvm-link-18'] + objs + ['-o', out + '.0'])
                if rc != 0:
                    return None, 'llvm-link: ' + e[:1500]
                rc, o, e = sh(['opt-18', '-passes=elim-avail-extern,default<O1>', out + '.0', '-o', out])
                if rc != 0:
                    return None, 'opt: ' + e[:1500]
                return out, None
            # links wait for compiles; run them outside the compile pool
            self.done[key] = LINKPOOL.submit(go)
        return self.done[key]

    @locked
    def native(self, job, variant):
        """ASan+UBSan build; variant: how uninitialised automatic storage is filled"""
        key = ('nat', job['fn'], job['file'], variant)
        if key not in self.done:
            fill = {'zero': ['-ftrivial-auto-var-init=zero'], 'pattern': ['-ftrivial-auto-var-init=pattern'], 'plain': []}[variant]
            fl = ['clang++', '-O1', '-g', '-fsanitize=address,bounds,signed-integer-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'] + fill + COMMON
            ic = incs(job, False)
            fs = [self.obj(V + '/rt/native.cpp', fl + ['-I' + V + '/rt', '-DVF_ENTRY=' + job['fn']], 'nrt')]
            fs.append(self.obj(V + '/harness/%s.cpp' % job['file'], fl + ic + self.tierdef(), 'nh'))
            fs += [self.obj(REPO + '/src/%s.cpp' % s, fl + ic, 'ns') for s in job['src']]

            def go():
                objs = []
                for f in fs:
                    o, e = f.result()
                    if e:
                        return None, e
                    objs.append(o)
                out = os.path.join(self.tmp, 'n' + hashlib.md5(repr(key).encode()).hexdigest()[:12])
                rc, o, e = sh(['clang++', '-fsanitize=address,bounds,signed-integer-overflow'] + objs + ['-o', out])
                return (out, None) if rc == 0 else (None, 'link: ' + e[:1500])
            self.done[key] = LINKPOOL.submit(go)
        return self.done[key]


LINKPOOL = cf.ThreadPoolExecutor(NPROC)


def write_replay(path, job, viol, tier):
    with open(path, 'w') as f:
        f.write('# job %s\n# tier %s\n# kind %s\n# id %s\n# where %s\n' % (job['fn'], tier, viol['kind'], viol['id'].replace('\n', ' '), viol['where'].replace('\n', ' ')))
        f.write('# replay: python3 %s/tools/check.py --replay %s\n' % (V, path))
        for n, h in viol['inputs']:
            f.write('%s %s\n' % (n.replace(' ', '_'), h if h else '-'))


def run_native(exe, replay, tmp, fill, timeout=20):
    scratch = tempfile.mkdtemp(dir=tmp)
    env = dict(os.environ, VF_REPLAY=replay, VF_SCRATCH=scratch,
               ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1000000:malloc_fill_byte=%d:detect_stack_use_after_return=0' % fill,
               UBSAN_OPTIONS='exitcode=98')
    rc, o, e = sh([exe], timeout=timeout, env=env, cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, o, e


def classify(rc, o, e):
    """what a native run showed"""
    m = re.search(r'VF ASSERT-FAIL (.*)', o)
    if m and rc == 3:
        return 'assert', m.group(1).strip()
    if 'VF ASSUME-FAIL' in o:
        return 'assume', ''
    if rc == 'timeout':
        return 'nonterm', ''
    if 'AddressSanitizer' in e and rc in (99, 1):
        m = re.search(r'AddressSanitizer: (\S+)', e)
        return 'memory', m.group(1) if m else ''
    if rc == 98 or 'runtime error:' in e:
        return 'ub', ''
    if isinstance(rc, int) and rc < 0:
        if -rc == signal.SIGABRT:
            return 'abort', ''
        return 'memory', 'signal %d' % -rc
    if rc == 0 and ('VF OK' in o or 'VF STOP' in o):
        return 'ok', ''
    return 'other', 'exit %s' % rc


def confirms(viol, kind, ident):
    k = viol['kind']
    if k == 'assert':
        return kind == 'assert' and ident == viol['id']
    if k == 'memory':
        return kind in ('memory', 'ub')
    if k in ('abort', 'terminate'):
        return kind == 'abort' or (kind == 'memory' and ident.startswith('signal'))
    if k == 'nonterm':
        return kind == 'nonterm' or (kind == 'memory' and ident == 'stack-overflow')
    return False


VARIANTS = [('plain', 0xbe), ('zero', 0), ('pattern', 0xff), ('pattern', 0x41), ('zero', 0x20)]


def confirm(B, job, viol, path, tmp):
    seen = []
    for var, fill in VARIANTS:
        exe, err = B.native(job, var).result()
        if err:
            return False, 'native build failed: ' + err
        rc, o, e = run_native(exe, path, tmp, fill)
        kind, ident = classify(rc, o, e)
        seen.append('%s/%02x:%s %s' % (var, fill, kind, ident))
        if confirms(viol, kind, ident):
            return True, (o.strip().splitlines() or [''])[-1] + ' ' + ' '.join(l for l in e.splitlines() if 'ERROR' in l or 'terminate' in l or 'what()' in l or 'Assertion' in l)[:300]
    return False, '; '.join(seen)


def load_known():
    p = os.path.join(V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def is_known(pid, job, viol, known):
    for k in known['known']:
        if k['property'] == pid and k['job'] == job['fn'] and k['kind'] == viol['kind'] and k['id'] == viol['id'] and k.get('where', '') in viol['where']:
            return k
    return None


def check(pid, tier, verbose=False):
    t0 = time.time()
    prop = PROPS[pid]
    jobs = [j for j in JOBS if j['prop'] == pid and (not ONLY or j['fn'] in ONLY) and (tier == 'thorough' or not j.get('thorough'))]
    gsx = os.path.join(V, 'build', 'gsx')
    if not os.path.exists(gsx):
        rc, o, e = sh(['bash', V + '/engine/build.sh'])
        if rc != 0:
            print('engine build failed:', e)
            return 2
    tmp = tempfile.mkdtemp(prefix='gsx-%s-' % pid)
    known = load_known()
    budget = 600 if tier == 'quick' else 3600
    try:
        B = Build(tmp, tier)

        def one(job):
            bc, err = B.link(job).result()
            if err:
                return job, None, err
            out = os.path.join(tmp, 'o-' + job['fn'])
            tl = job.get('time', 120) * (1 if tier == 'quick' else 6)
            cmd = [gsx, bc, '--fn', job['fn'], '--out', out, '--time', str(tl), '--qtimeout', str(job.get('qtimeout', 20000)), '--steps', str(job.get('steps', 20000000))]
            if job.get('real'):
                cmd.append('--fold' if job['real'] == 'fold' else '--real')
            rc, o, e = sh(cmd, timeout=tl * 2 + 60, mem=12 << 30)
            if not os.path.exists(out):
                return job, None, 'executor failed (%s): %s' % (rc, e[-500:])
            return job, json.load(open(out)), e

        with cf.ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, sorted(jobs, key=lambda j: -j.get('weight', 1))))
        for _, r, e in results:
            pass
        failed = [(j['fn'], e) for j, r, e in results if r is None]
        tot = dict(paths=0, forks=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0)
        harness, funcs, incomplete, unreached = [], set(), {}, []
        nviol, confirmed, unconfirmed, knownhits, validated, disagree, samples = 0, [], [], [], 0, [], []
        checked = discharged = 0
        rdir = os.path.join(V, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(pid + '-'):
                os.unlink(os.path.join(rdir, f))
        for job, r, e in results:
            if r is None:
                continue
            for k in tot:
                tot[k] += r[k]
            funcs |= set(r['functions'])
            for k, n in r['incomplete'].items():
                incomplete[job['fn'] + ': ' + k] = n
            checked += sum(a[0] for a in r['asserts'].values())
            discharged += sum(a[1] for a in r['asserts'].values())
            for w in job.get('reach', []):
                if not r['reach'].get(w):
                    unreached.append(job['fn'] + ':' + w)
            harness.append(dict(harness=job['fn'], arithmetic=('reals, constants folded to double' if job['real'] == 'fold' else 'reals') if job.get('real') else 'machine', bounds=job['bounds'], paths=r['paths'], queries=r['queries'],
                                solver_s=round(r['solver_s'], 3), wall_s=round(r['wall_s'], 3), asserts=r['asserts'], incomplete=r['incomplete']))
            if verbose:
                print('  %-28s paths %-6d queries %-6d solver %.1fs wall %.1fs viol %d %s' % (job['fn'], r['paths'], r['queries'], r['solver_s'], r['wall_s'], len(r['violations']), r['incomplete'] or ''))
            for i, v in enumerate(r['violations']):
                nviol += 1
                path = os.path.join(rdir, '%s-%s-%d.txt' % (pid, job['fn'], i))
                write_replay(path, job, v, tier)
                ok, how = confirm(B, job, v, path, tmp)
                what = '%s %s at %s' % (v['kind'], v['id'], v['where'])
                if not ok:
                    unconfirmed.append('%s: %s (%s)' % (job['fn'], what, how))
                    continue
                k = is_known(pid, job, v, known)
                if k:
                    knownhits.append(k['what'])
                else:
                    confirmed.append((path, job['fn'] + ': ' + what, how))
        # agreement of the executor with the compiled code: replay path samples
        def validate(jr):
            job, r, e = jr
            if r is None or not r['samples']:
                return []
            exe, err = B.native(job, 'zero').result()
            if err:
                return [(job['fn'], 'build', err)]
            res = []
            for i, s in enumerate(r['samples'][:12 if tier == 'thorough' else 6]):
                p = os.path.join(tmp, 'smp-%s-%d' % (job['fn'], i))
                with open(p, 'w') as f:
                    for kv in s.split():
                        n, _, h = kv.partition('=')
                        f.write('%s %s\n' % (n, h if h else '-'))
                kind, ident = classify(*run_native(exe, p, tmp, 0))
                res.append((job['fn'], kind + (' ' + ident if ident else ''), s))
            return res
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for res in ex.map(validate, results):
                for fn, kind, s in res:
                    if kind == 'ok':
                        validated += 1
                        if len(samples) < 6:
                            samples.append({'harness': fn, 'path_inputs': s[:600], 'native_run': 'completed, every assertion held'})
                    elif kind == 'build':
                        disagree.append('%s: native build failed: %s' % (fn, s[:300]))
                    elif kind != 'assume':
                        disagree.append('%s: native run of a passing path gave %s (inputs %s)' % (fn, kind, s[:300]))
        if not samples:
            samples = [{'note': 'no path sample could be replayed'}]
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
                  coverage=dict(states=int(tot['paths']), transitions=int(tot['instructions']), traces_validated_against_impl=validated, samples=samples,
                                functions_encoded=sorted(funcs), bounds=[h['harness'] + ': ' + h['bounds'] for h in harness], outside_bounds=prop.get('outside', ''),
                                solver=dict(name='Z3 (API)', queries=int(tot['queries']), sat=int(tot['sat']), unsat=int(tot['unsat']), unknown=int(tot['unknown']), seconds=round(tot['solver_s'], 3)),
                                assertions=dict(checked=checked, discharged=discharged), harnesses=harness, complete=not incomplete and not failed,
                                incomplete=incomplete, not_run=['%s: %s' % f for f in failed], unreached_witnesses=unreached,
                                unconfirmed_counterexamples=unconfirmed, executor_vs_native_disagreements=disagree,
                                explanation='states = execution paths explored to their end, transitions = IR instructions executed symbolically; each assertion is decided by the solver for all inputs of its path within the bounds'),
                  assumptions=prop.get('assumptions', []) + ['the executor, its library models (rt/runtime.cpp) and clang 18 with default<O1> are trusted; path samples are replayed natively under ASan on every run'],
                  wall_s=round(time.time() - t0, 3), violations=len(confirmed))
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(knownhits)):
            print('KNOWN-FINDING: property=%s %s' % (pid, k))
        for p, what, how in confirmed:
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  %s [native: %s]' % (what, how.strip()))
        for u in unconfirmed:
            print('note: not confirmed by replay, not reported: %s' % u)
        for u in disagree:
            print('note: %s' % u)
        for k, n in incomplete.items():
            print('note: incomplete %s (%d)' % (k, n))
        for u in unreached:
            print('note: witness not reached: %s' % u)
        for f, e in failed:
            print('note: harness %s could not be run: %s' % (f, e[:600]))
        print('%s %s: %d harnesses, %d paths, %d assertions (%d discharged), %d queries, solver %.1f s, wall %.1f s' %
              (pid, 'VIOLATED' if confirmed else 'held', len(harness), tot['paths'], checked, discharged, tot['queries'], tot['solver_s'], time.time() - t0))
        if confirmed:
            return 1
        if failed and len(failed) == len(results):
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(path):
    hdr = dict(re.findall(r'^# (\w+) (.*)$', open(path).read(), re.M))
    job = [j for j in JOBS if j['fn'] == hdr['job']][0]
    viol = dict(kind=hdr['kind'], id=hdr['id'], where=hdr['where'])
    tmp = tempfile.mkdtemp(prefix='gsx-replay-')
    try:
        B = Build(tmp, hdr['tier'])
        ok, how = confirm(B, job, viol, path, tmp)
        print('reproduced' if ok else 'not reproduced', viol, how)
        return 1 if ok else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='*')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    rcs = [check(p, a.tier, a.v) for p in (sorted(PROPS) if a.all else a.prop)]
    sys.exit(max(rcs) if rcs else 2)
