"""Driver: compile the repository's current sources to LLVM IR, run the symbolic executor on
harness entries, replay every counterexample natively against the real code, write evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
SYMEX = HERE + '/build/symex'
INC = ['-I' + SRC, '-I' + HERE + '/harness', '-I/usr/include/python3.12', '-I/usr/lib/python3/dist-packages/numpy/core/include']
CLANG = ['clang++-18', '-O1', '-fno-inline', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
         '-fno-strict-aliasing', '-fno-builtin', '-fno-pic', '-std=c++11', '-w', '-emit-llvm', '-c', '-DVERIF_SYM']
GXX = ['g++', '-O1', '-g', '-fno-strict-aliasing', '-ffp-contract=off', '-std=c++11', '-w', '-DSYM_NATIVE',
       '-ffunction-sections', '-fdata-sections']
NCPU = os.cpu_count() or 4
# every non-test source of the library part at the pinned commit; files added later are compiled too
KNOWN_SRC = None

class Job:
    def __init__(self, entry, harness, sources, params=None, fp='ieee', opts=(), time=60, reach=(), native=None,
                 tiers=('quick', 'thorough'), builtins=('memory-safety', 'no-abort', 'rng-range'), seeds=3, defs=(), only=None,
                 native_extra=(), note='', native_defs=(), scale=None):
        self.scale = tuple(sorted((scale or {}).items()))
        self.entry, self.harness, self.sources = entry, harness, list(sources)
        self.params, self.fp, self.opts, self.time = dict(params or {}), fp, list(opts), time
        self.reach, self.tiers, self.builtins, self.seeds = list(reach), tiers, tuple(builtins), seeds
        self.native = native if native is not None else self.sources
        self.defs, self.only, self.note = list(defs), only, note
        self.native_extra = list(native_extra)
        self.native_defs = list(native_defs)
    def key(self):
        return self.entry + ''.join(',%s=%s' % kv for kv in sorted(self.params.items()))

def sh(cmd, timeout=None, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        return -9, '', 'timeout'

def ensure_engine():
    if not os.path.exists(SYMEX):
        rc, o, e = sh(['bash', HERE + '/engine/build.sh'])
        if rc != 0:
            print('engine build failed', e[-2000:])
            return False
    return True

class Build:
    """IR and native builds of one (harness, sources) combination, cached for this run."""
    def __init__(self, scratch):
        self.dir = scratch; self.cache = {}; self.lock = threading.RLock()
    def tree(self, job):
        """source tree the job compiles: the repository's, or a copy of it with named size constants lowered"""
        if not job.scale: return SRC
        k = ('tree', job.scale)
        if k not in self.cache:
            d = '%s/tree%d' % (self.dir, len(self.cache)); shutil.copytree(SRC, d)
            for name, (old, new) in job.scale:
                for p in glob.glob(d + '/**/*.h', recursive=True) + glob.glob(d + '/**/*.cpp', recursive=True):
                    t = open(p, errors='replace').read(); u = re.sub(r'\b(%s\s*[={]?\s*)%d\b' % (name, old), r'\g<1>%d' % new, t)
                    if u != t: open(p, 'w').write(u)
            self.cache[k] = d
        return self.cache[k]
    def _objs(self, kind, files, defs, cmd, src=SRC):
        tasks = []
        for f in files:
            k = (kind, f, tuple(defs), src)
            if k not in self.cache:
                out = '%s/%s_%d.o' % (self.dir, re.sub(r'\W', '_', os.path.relpath(f, '/')), len(self.cache))
                self.cache[k] = out
                tasks.append((k, cmd + list(defs) + ['-I' + src] + INC[1:] + ['-c', f, '-o', out]))
        errs = []
        def run(t):
            rc, o, e = sh(t[1], timeout=300)
            if rc != 0: errs.append((t[0], e[-3000:]))
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(run, tasks))
        for k, e in errs: self.cache[k] = None
        return [self.cache[(kind, f, tuple(defs), src)] for f in files], errs
    def _files(self, job, srcs, extra=()):
        t = self.tree(job)
        return [HERE + '/harness/' + job.harness] + [t + '/' + s for s in srcs] + [HERE + '/harness/' + x for x in extra] + self._new(job)
    def _new(self, job):
        t = self.tree(job); return [t + f[len(SRC):] for f in new_sources()]
    def ir(self, job):
        with self.lock: return self._ir(job)
    def exe(self, job, asan=False):
        with self.lock: return self._exe(job, asan)
    def _ir(self, job):
        files = self._files(job, job.sources)
        k = ('bc', job.harness, tuple(job.sources), tuple(job.defs), job.scale)
        if k in self.cache: return self.cache[k]
        objs, errs = self._objs('ir', files, job.defs, CLANG, self.tree(job))
        base = set(files) - set(self._new(job))
        bad = [e for (kk, e) in errs if kk[1] in base]
        if bad:
            self.cache[k] = (None, bad[0]); return self.cache[k]
        objs = [o for o in objs if o]
        out = '%s/link%d.bc' % (self.dir, len(self.cache))
        rc, o, e = sh(['llvm-link-18', '-o', out] + objs)
        if rc != 0:
            objs = objs[:len(files) - len(new_sources())]
            rc, o, e = sh(['llvm-link-18', '-o', out] + objs)
        self.cache[k] = (out, '') if rc == 0 else (None, e)
        return self.cache[k]
    def _exe(self, job, asan=False):
        k = ('exe', job.harness, tuple(job.native), tuple(job.defs), asan, job.scale)
        if k in self.cache: return self.cache[k]
        cmd = GXX + (['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-DSYM_ASAN'] if asan else [])
        files = self._files(job, job.native, job.native_extra) + [HERE + '/harness/symrt.cpp']
        files = list(dict.fromkeys(files))
        objs, errs = self._objs('nat' + str(asan), files, list(job.defs) + list(job.native_defs), cmd, self.tree(job))
        if not objs[0]:
            self.cache[k] = (None, 'harness does not compile natively: ' + ''.join(e for kk, e in errs if kk[1] == files[0])[-1500:]); return self.cache[k]
        objs = [o for o in objs if o]
        out = '%s/exe%d' % (self.dir, len(self.cache))
        base = ['g++'] + (['-fsanitize=address,undefined'] if asan else [])
        rc, o, e = sh(base + objs + ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-o', out, '-ldl'])
        self.cache[k] = (out, '') if rc == 0 else (None, e[-3000:] + str(errs)[:2000])
        return self.cache[k]

def new_sources():
    global KNOWN_SRC
    base = [l.strip() for l in open(HERE + '/base_sources.txt')] if os.path.exists(HERE + '/base_sources.txt') else None
    if base is None: return []
    if KNOWN_SRC is None:
        cur = [os.path.relpath(p, SRC) for p in glob.glob(SRC + '/**/*.cpp', recursive=True)]
        KNOWN_SRC = [SRC + '/' + c for c in sorted(cur) if c not in base and not c.endswith('_test.cpp')]
    return KNOWN_SRC

def replay(exe, trace, seed=1, asan=False):
    env = dict(os.environ); env['SYMRT_SEED'] = str(seed)
    if asan: env['UBSAN_OPTIONS'] = 'exitcode=13:halt_on_error=1'
    d = tempfile.mkdtemp(prefix='vprun')
    try: rc, o, e = sh([exe, trace], timeout=90, env=env, cwd=d)
    finally: shutil.rmtree(d, ignore_errors=True)
    fails = re.findall(r'^CHECK-FAIL (.*)$', o, re.M)
    obs = dict(re.findall(r'^OBS (\S+) (\S+)$', o, re.M))
    crash = rc in (11, 12, 13) or rc < 0 or 'CRASH' in o
    return dict(rc=rc, fails=fails, obs=obs, crash=crash, out=o, err=e, assume='ASSUME-FAIL' in o, end='REPLAY-END' in o)

def load_known():
    known = {}
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) check=(\S+) (.*)', l.strip())
            if m: known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return known

def run_check(prop, title, jobs, tier, seed, assumptions=(), bounds='', post=None, level='model_checking'):
    t0 = time.time()
    out_dir = '%s/out/%s' % (HERE, prop)
    shutil.rmtree(out_dir, ignore_errors=True); os.makedirs(out_dir, exist_ok=True)
    os.makedirs(HERE + '/evidence', exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='vp-')
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage={}, wall_s=0, violations=0, assumptions=list(assumptions))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], paths=0, merges=0, queries_discharged=0,
               queries=0, solver_s=0.0, checks={}, functions_encoded={}, bounds=bounds, inconclusive=[], spurious=[], stubbed={}, havoced_externals={},
               reached={}, jobs=0, translator_mismatches=[])
    violations, knownhits = [], {}
    known = load_known().get(prop, {})
    try:
        if not ensure_engine():
            cov['inconclusive'].append('engine not built')
        else:
            _run(prop, [j for j in jobs if tier in j.tiers], scratch, out_dir, cov, violations, knownhits, known, seed, tier)
            if post: post(scratch, out_dir, cov, violations, knownhits, known)
    except Exception as e:  # a failure of the machinery is never an alarm
        import traceback; traceback.print_exc(file=sys.stdout)
        cov['inconclusive'].append('driver: %r' % e)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    cov['solver_s'] = round(cov['solver_s'], 3)
    ev['coverage'] = cov; ev['violations'] = len(violations); ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open('%s/evidence/%s.json' % (HERE, prop), 'w'), indent=1, sort_keys=True)
    for k, d in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    print('%s %s: %d jobs, %d paths, %d/%d queries discharged, %.1fs solver, %d validated traces, %d inconclusive, %d spurious, %.1fs' % (
        prop, title, cov['jobs'], cov['paths'], cov['queries_discharged'], cov['queries'], cov['solver_s'],
        cov['traces_validated_against_impl'], len(cov['inconclusive']), len(cov['spurious']), time.time() - t0))
    for x in (cov['inconclusive'] + cov['spurious'])[:12]: print('  note:', str(x)[:300])
    for v in violations:
        print('  ', v['id'], v['note'])
    if violations:
        print('VIOLATION property=%s replay=%s' % (prop, violations[0]['replay']))
        return 1
    return 0

def _run(prop, jobs, scratch, out_dir, cov, violations, knownhits, known, seed, tier):
    B = Build(scratch)
    for j in jobs: B.ir(j)
    ready = []
    for j in jobs:
        bc, err = B.ir(j)
        if not bc: cov['inconclusive'].append('%s: harness does not compile against this tree: %s' % (j.key(), err[-400:])); continue
        ready.append((j, bc))
    def one(jb):
        j, bc = jb
        td = tempfile.mkdtemp(prefix='tr', dir=scratch); outf = td + '/out.json'
        cmd = [SYMEX, bc, '--entry', j.entry, '--fp', j.fp, '--out', outf, '--traces', td, '--time', str(j.time)]
        for k, v in j.params.items(): cmd += ['--param', '%s=%d' % (k, v)]
        cmd += j.opts
        rc, o, e = sh(cmd, timeout=j.time * 2 + 120)
        try: return j, json.load(open(outf)), ''
        except Exception: return j, None, 'executor rc=%s %s' % (rc, e[-300:])
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(one, ready))
    # native builds only for harnesses that need them
    need = {}
    cand = []
    for j, r, err in results:
        cov['jobs'] += 1
        if r is None: cov['inconclusive'].append('%s: %s' % (j.key(), err)); continue
        cov['paths'] += r['paths']; cov['merges'] += r['merges']
        cov['states'] += r['paths'] + r['killed'] + r['merges']; cov['transitions'] += r['instrs']
        cov['queries'] += r['queries']; cov['solver_s'] += r['solver_s']
        for k, v in r['functions'].items():
            if not k.startswith(('h_', 'sym')): cov['functions_encoded'][k[:140]] = v
        for k, v in r['stubbed'].items(): cov['stubbed'][k] = cov['stubbed'].get(k, 0) + v
        for k, v in r['externs'].items(): cov['havoced_externals'][k] = cov['havoced_externals'].get(k, 0) + v
        for k, v in r['reach'].items(): cov['reached'][k] = cov['reached'].get(k, 0) + v
        for k, v in r['checks'].items():
            if k == 'engine-complete':
                if v['unknown']: cov['inconclusive'].append('%s: exploration incomplete: %s' % (j.key(), '; '.join(x for x in r['errors'] if x.startswith('incomplete'))[:300]))
                continue
            c = cov['checks'].setdefault(k, dict(ok=0, viol=0, unknown=0))
            for f in c: c[f] += v[f]
            cov['queries_discharged'] += v['ok']
            if v['unknown']: cov['inconclusive'].append('%s: %s undecided on %d paths' % (j.key(), k, v['unknown']))
        for t in j.reach:
            if t not in r['reach']: cov['inconclusive'].append('%s: witness %s not reached' % (j.key(), t))
        for v in r['violations']: cand.append((j, v))
        need[j.key()] = (j, r)
    # translator validation on witnesses
    wit = []
    for k, (j, r) in need.items():
        for w in r['witnesses'][: (4 if tier == 'quick' else 12)]: wit.append((j, w))
    def val(jw):
        j, w = jw
        exe, err = B.exe(j)
        if not exe: return j, w, None, err
        return j, w, replay(exe, w, seed), ''
    for j in {jj.harness + str(jj.native): jj for jj, _ in wit}.values(): B.exe(j)
    with ThreadPoolExecutor(NCPU) as ex: vr = list(ex.map(val, wit))
    for j, w, r, err in vr:
        if r is None:
            cov['inconclusive'].append('%s: native build: %s' % (j.key(), err[-300:])); continue
        exp = dict(re.findall(r'^obs (\S+) (\S+)$', open(w).read(), re.M))
        diff = [k for k in exp if k in r['obs'] and r['obs'][k] != exp[k]]
        if not diff and r['end'] and not r['fails'] and not r['assume']:
            cov['traces_validated_against_impl'] += 1
        else:
            bad = [f for f in r['fails']]
            cov['translator_mismatches'].append('%s obs=%s fails=%s assume=%s rc=%s' % (j.key(), diff[:4], bad[:4], r['assume'], r['rc']))
        if len(cov['samples']) < 6: cov['samples'].append('%s: %s' % (j.key(), ' '.join(open(w).read().split('\n'))[:500]))
    # candidates
    done = {}
    for j, v in cand:
        if v['id'] in ('memory-safety', 'no-abort', 'rng-range') and v['id'] not in j.builtins:
            cov['spurious'].append('%s: %s %s (not part of this property)' % (j.key(), v['id'], v['note'])); continue
        if j.only and v['id'] not in ('memory-safety', 'no-abort', 'rng-range') and not v['id'].startswith(tuple(j.only)): continue
        if done.get((v['id'], v['note'][:60])) == 'hit': continue
        ok, detail = reproduce(B, j, v)
        if not ok:
            cov['spurious'].append('%s: %s %s did not reproduce natively (%s)' % (j.key(), v['id'], v['note'], detail)); continue
        done[(v['id'], v['note'][:60])] = 'hit'
        if v['id'] in known: knownhits[v['id']] = 1; continue
        dst = '%s/%s.trace' % (out_dir, re.sub(r'\W+', '_', j.key() + '_' + v['id']))
        shutil.copy(v['trace'], dst)
        violations.append(dict(id=v['id'], note='%s %s %s' % (j.key(), v['note'], detail), replay=dst))

def reproduce(B, j, v):
    asan = v['id'] in ('memory-safety', 'rng-range')
    exe, err = B.exe(j, asan)
    if not exe: return False, 'native build failed: ' + err[-200:]
    last = ''
    for s in range(1, j.seeds + 1):
        r = replay(exe, v['trace'], s, asan)
        if r['assume']: last = 'assumption false natively'; continue
        if v['id'] in r['fails']: return True, 'reproduced (seed %d)' % s
        if asan and r['crash']:
            m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)', r['err'] + r['out'])
            return True, 'reproduced: ' + (m.group(1) if m else 'crash')
        last = 'rc=%d fails=%s' % (r['rc'], r['fails'][:3])
    return False, last
