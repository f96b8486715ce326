"""Machinery shared by the checks: scratch space, drivers (PyPy), TLC, verdicts, evidence."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'harness', 'drivers')
REPO = os.environ.get('VERIF_REPO', '/repo')      # another tree only to try planted bugs on copies
EVIDENCE = os.path.join(VERIF, 'evidence') if REPO == '/repo' else tempfile.mkdtemp(prefix='evidence-')
PYPY = '/opt/venv-pypy/bin/pypy3'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NPROC = 8


class MachineryError(Exception):
    pass


class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop, dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.states = self.transitions = self.traces = 0
        self.models, self.samples, self.cov = [], [], {}
        self.bad = []            # (property, clause, id, detail)
        self.assumptions = []
        self.log_lines = []

    # ------------------------------------------------------------- processes
    def env(self, **kw):
        e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
             'PYTHONHASHSEED': '0', 'VERIF_REPO': REPO, 'HOME': self.scratch, 'TMPDIR': self.scratch, 'PYTHONIOENCODING': 'utf-8:surrogateescape'}
        e.update(kw)
        return e

    def driver(self, name, arg, timeout=800, env=None):
        """Run a driver under PyPy; its last stdout line is its JSON report."""
        p = subprocess.run([PYPY, os.path.join(DRIVERS, name), json.dumps(arg)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env or self.env(), timeout=timeout, cwd=self.scratch)
        if p.returncode != 0:
            raise MachineryError('driver %s failed (%s)\n%s' % (name, p.returncode, p.stderr.decode('utf-8', 'replace')[-3000:]))
        lines = p.stdout.decode('utf-8', 'surrogateescape').strip().split('\n')
        return json.loads(lines[-1])

    def shim_env(self, scratch):
        """Environment in which the file operations of processes can be counted and cut short (harness/shim)."""
        so = os.path.join(self.scratch, 'shim.so')
        if not os.path.exists(so):
            tmp = tempfile.mktemp(dir=self.scratch)
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, os.path.join(VERIF, 'harness', 'shim', 'shim.c'), '-ldl'], check=True)
            os.rename(tmp, so)
        ctl = os.path.join(scratch, 'shim.ctl')
        with open(ctl, 'wb') as f:
            f.write(bytes(4096))
        return self.env(LD_PRELOAD=so, VERIF_SHIM=ctl)

    def parallel(self, fn, items, n=NPROC):
        with cf.ThreadPoolExecutor(n) as ex:
            return list(ex.map(fn, items))

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, args=(), mem='2500m', timeout=800, simulate=None):
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss32m', '-Xmx' + mem, '-XX:+UseSerialGC' if '-workers' not in args else '-XX:+UseParallelGC',
               '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC',
               '-metadir', meta, '-noGenerateSpecTE', '-config', os.path.join(SPEC, (cfg or module) + '.cfg')]
        if '-workers' not in args:
            cmd += ['-workers', '1']
        cmd += list(args) + [os.path.join(SPEC, module + '.tla')]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env(**(env or {})), cwd=meta, timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, out

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def model(self, module, cfg=None, args=(), timeout=800, mem='6g', expect=None, workers=NPROC):
        """Model-check a design-level specification; a violated invariant there is an error of the specification."""
        t = time.time()
        rc, out = self.tlc(module, cfg, args=['-workers', str(workers)] + list(args), mem=mem, timeout=timeout)
        gen, dist = self.counts(out)
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('TLC on %s/%s failed (%s)\n%s' % (module, cfg, rc, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({'module': module, 'cfg': cfg or module, 'distinct_states': dist, 'states_generated': gen,
                            'wall_s': round(time.time() - t, 1)})

    def trace(self, module, files, cfg=None, env=None, timeout=800, mem='3g', n_events=None):
        """Check recorded traces; every event must be consumed.  Collects the BAD clauses TLC reports."""
        t = time.time()
        failed = []

        def one(f):
            n = sum(1 for _ in open(f, 'rb'))
            if n == 0:
                return 0, 0, 0, []
            e = {'TRACE': f}
            e.update((env(f) if callable(env) else env) or {})
            rc, out = self.tlc(module, cfg, env=e, mem=mem, timeout=timeout)
            gen, dist = self.counts(out)
            if rc != 0 or 'No error has been found' not in out or dist != n + 1:
                failed.append('trace check of %s with %s not completed (rc %s, %d states for %d events)\n%s'
                              % (f, module, rc, dist, n, out[-3000:]))
            bad = re.findall(r'<<\s*"BAD",\s*"([^"]*)",\s*"([^"]*)",\s*"([^"]*)",\s*(.*?)\s*>>(?=\n)', out, re.S)
            return n, gen, dist, bad

        res = self.parallel(one, [f for f in files])
        n = sum(r[0] for r in res)
        self.traces += n if n_events is None else n_events
        self.states += sum(r[2] for r in res)
        self.transitions += sum(r[1] for r in res)
        self.models.append({'module': module, 'cfg': cfg or module, 'kind': 'trace', 'events': n, 'wall_s': round(time.time() - t, 1)})
        bad = [b for r in res for b in r[3]]
        self.bad.extend(bad)
        if failed:
            if not any(b[0] == self.prop for b in bad):
                raise MachineryError(failed[0])
            print('note: ' + failed[0])         # what was found before stands
        return bad

    # --------------------------------------------------------------- results
    def finish(self, describe=None, level='model_checking'):
        """Report: KNOWN-FINDING lines, VIOLATION lines, evidence; returns the exit status."""
        known = load_known()
        mine = [b for b in self.bad if b[0] == self.prop]
        other = sorted({(b[0], b[1]) for b in self.bad if b[0] != self.prop})
        fresh, listed = [], {}
        for b in mine:
            d = describe(b) if describe else {'clause': b[1], 'event': b[2], 'detail': b[3]}
            k = next((k for k in known if k['property'] == self.prop and known_matches(k, b, d)), None)
            if k:
                listed[k['what']] = listed.get(k['what'], 0) + 1
            else:
                fresh.append((b, d))
        for k in known:
            if k['property'] == self.prop and k.get('kind') == 'finding':
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        status = 0
        if fresh:
            rdir = os.path.join(EVIDENCE, 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'seed': SEED, 'tier': TIER,
                           'violations': [{'clause': b[1], 'event': b[2], 'case': d} for b, d in fresh[:20]],
                           'total': len(fresh)}, f, indent=1, default=str)
            for c in sorted({b[1] for b, _ in fresh}):
                print('  clause violated: %s (%d)' % (c, sum(1 for b, _ in fresh if b[1] == c)))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            status = 1
        if other:
            print('note: clauses of other properties also failed: %s' % other[:10])
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:5] or ['none'], 'models': self.models}
        cov.update(self.cov)
        os.makedirs(EVIDENCE, exist_ok=True)
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump({'property': self.prop, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': level, 'coverage': cov,
                       'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(fresh)}, f, indent=1,
                      default=str)
        print('%s: %d model/trace states, %d implementation traces checked, %d violations, %.1f s'
              % (self.prop, self.states, self.traces, len(fresh), time.time() - self.t0))
        return status

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known():
    res = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                k = json.loads(line[len('finding:'):])
                k['kind'] = 'finding'
                res.append(k)
    return res


def known_matches(k, bad, d):
    if k.get('kind') != 'finding':
        return False
    m = k.get('match', {})
    if 'clause' in m and m['clause'] != bad[1]:
        return False
    for key, v in m.get('case', {}).items():
        if d.get(key) != v:
            return False
    return bool(m)


def describe_src(files):
    """Describe a violation by the line of <trace>.src that has its event id."""
    def describe(b):
        for f in files:
            for line in open(f + '.src'):
                s = json.loads(line)
                if s['id'] == b[2]:
                    return dict(s, clause=b[1], detail=b[3])
        return {'clause': b[1], 'detail': b[3]}
    return describe


def chunks(path, n, outdir):
    """Split a trace of independent events into n files."""
    lines = open(path, 'rb').read().split(b'\n')
    lines = [x for x in lines if x]
    files = []
    for i in range(n):
        part = lines[i::n]
        if part:
            f = os.path.join(outdir, '%s.%d' % (os.path.basename(path), i))
            open(f, 'wb').write(b'\n'.join(part) + b'\n')
            files.append(f)
    return files
