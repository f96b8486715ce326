#!/usr/bin/env python3
"""mkseed.py SPEC.py...: make a planted bug from a spec file defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python source run with PyPy, cwd = repo copy).
The bug is kept (under /verif/seeded/ID) only if, in a scratch copy of /repo: the demo passes without it,
the tests pass with it, and the demo fails with it."""
import json, os, shutil, subprocess, sys, tempfile
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on this scenario
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/home"
env -u XDG_CONFIG_HOME -u XDG_CACHE_HOME HOME=$w/home WORK=$w PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD \\
  timeout 250 /opt/venv-pypy/bin/pypy3 "$(dirname "$(readlink -f "$0")")/demo.py"
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main(spec):
    d = {}
    exec(open(spec).read(), d)
    tmp = tempfile.mkdtemp(prefix='seedcopy')
    try:
        repo = os.path.join(tmp, 'repo')
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        assert not sh(['git', 'status', '--porcelain'], repo).stdout.strip(), 'dirty repo'
        out = os.path.join(tmp, d['ID']); os.makedirs(out)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(out, 'demo.py'), 'w').write(d['DEMO'].lstrip('\n'))
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        r = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        if r.returncode != 0: return 'DEMO FAILS ON CLEAN TREE\n' + r.stdout[-1500:]
        for f, old, new in d['EDITS']:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: return f'edit does not match once ({s.count(old)}) in {f}: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        r = sh(['bash', os.path.join(out, 'demo.sh')], repo)
        if r.returncode == 0: return 'DEMO PASSES WITH PATCH\n' + r.stdout[-800:]
        demo_out = r.stdout[-300:]
        home = os.path.join(tmp, 'h'); os.makedirs(home)
        env = dict(os.environ, HOME=home, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        r = sh(['timeout', '600', '/opt/venv-pypy/bin/pypy3', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60',
                '--doctest-modules', '--continue-on-collection-errors', '--tb=line', '--show-capture=no',
                '-o', 'junit_family=xunit2', f'--junitxml={tmp}/report.xml'], repo, env=env)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', f'{tmp}/res.json', f'junit:{tmp}/report.xml'])
        res = json.load(open(f'{tmp}/res.json')); stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        missing = [t for t in stable if t not in set(res['passed'])]
        if missing: return f'TESTS FAIL ({len(missing)}): {missing[:4]}'
        dst = os.path.join('/verif/seeded', d['ID'])
        if os.path.exists(dst): shutil.rmtree(dst)
        shutil.copytree(out, dst)
        return 'OK  demo: ' + demo_out.strip().split('\n')[-1]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
for s in sys.argv[1:]:
    print(os.path.basename(s), '->', main(s), flush=True)
