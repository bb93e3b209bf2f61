#!/opt/venv/bin/python
"""tools/seed.py DEF.py [--no-check]: turn a definition of a planted bug into
seeded/<id>/ and confirm it: the original lines are changed, the demonstration
passes without and fails with the patch, the stable tests pass with it; then
run the property's check against it.  DEF.py sets PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new), ...], DEMO (Python source), optional FILES."""
import json, os, runpy, shutil, subprocess, sys, tempfile, xml.etree.ElementTree as ET
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(*a, **k):
    k.setdefault('stdout', subprocess.PIPE); k.setdefault('stderr', subprocess.STDOUT)
    return subprocess.run(a, text=True, errors='replace', **k)
def main(path, check=True):
    d = runpy.run_path(path); sid = os.path.splitext(os.path.basename(path))[0]
    wt = '/tmp/seedwt.%d' % os.getpid()
    assert sh('git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', wt, 'HEAD').returncode == 0
    try:
        out = os.path.join(V, 'seeded', sid); os.makedirs(out, exist_ok=True)
        open(out + '/demo.sh', 'w').write('#!/bin/sh\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        open(out + '/demo.py', 'w').write(d['DEMO'].lstrip('\n'))
        for n, t in d.get('FILES', {}).items(): open(out + '/' + n, 'w').write(t)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        def demo():
            r = sh('sh', out + '/demo.sh', cwd=wt, timeout=300, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'))
            return r.returncode, r.stdout[-400:]
        c, o = demo()
        if c: print(sid, 'DEMO FAILS UNPATCHED', c, o); return
        orig = True
        for f, old, new in d['EDITS']:
            t = open(wt + '/' + f).read()
            if t.count(old) != 1: print(sid, 'EDIT', f, 'matches', t.count(old), repr(old)); return
            open(wt + '/' + f, 'w').write(t.replace(old, new))
        p = sh('git', '-C', wt, 'diff').stdout; open(out + '/patch.diff', 'w').write(p)
        # originality: deleted lines, or the line before an insertion, from the base commit
        base = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
        import re
        for f in {e[0] for e in d['EDITS']}:
            bl = sh('git', '-C', '/repo', 'blame', '-s', 'HEAD', '--', f).stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git', '-C', wt, 'diff', '-U0', '--', f).stdout, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + max(n, 1)):
                    if not bl[i-1].startswith('^'): orig = False; print(sid, 'NOT ORIGINAL LINE', f, i, bl[i-1][:90])
        c, o = demo()
        if not c: print(sid, 'DEMO PASSES PATCHED'); return
        print(sid, 'demo fails patched:', o.strip().split('\n')[-1][:150])
        rep = wt + '/../seed%d.xml' % os.getpid()
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONPATH=wt)
        sh('/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '--ignore=scaks/tests/test_all.py', 'scaks/tests', '-o', 'junit_family=xunit2', '--junitxml=' + rep, cwd=wt, env=env)
        res = wt + '.json'
        sh('/usr/bin/python3', '/opt/vp/results.py', res, 'junit:' + rep)
        ps = set(json.load(open(res))['passed']); os.remove(res); os.remove(rep)
        miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ps]
        print(sid, 'stable tests missing:', miss)
        sh('git', '-C', wt, 'status', '--short')
        if check:
            r = sh('./check', d['PROPERTY'], '--tier', 'quick', cwd=V, env=dict(os.environ, SCAKS_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick'))
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            print(sid, '%s: rc %d' % (d['PROPERTY'], r.returncode), v[:1], 'CAUGHT' if r.returncode == 1 and v else '******** MISSED')
        print(sid, 'OK' if orig and not miss else '######## NOT VALID')
    finally:
        sh('git', '-C', '/repo', 'worktree', 'remove', '--force', wt)
if __name__ == '__main__':
    for a in sys.argv[1:]:
        if a != '--no-check': main(a, '--no-check' not in sys.argv)
