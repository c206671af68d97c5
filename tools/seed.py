#!/usr/bin/env python3
# Tries planted bugs in a scratch copy of /repo: seed.py [-n] ID...   (-n: do not run the check)
# Each must apply, build, pass the stable tests, fail its demo, and is then given to the property's check.
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VP_REPO', '/repo')
S, P = '/tmp/vpseed/repo', '/tmp/vpseed/vp'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def prepare():
    shutil.rmtree('/tmp/vpseed', ignore_errors=True); os.makedirs('/tmp/vpseed')
    sh('cp -a ' + R + ' %s && cp -a /opt/vp %s && cd %s && git checkout -q -- . && grep -rlI /repo %s | xargs sed -i "s#/repo#%s#g; s#/opt/vp/#%s/#g"' % (S, P, S, P, S, P))
    r = sh('bash %s/build.sh' % P)
    if r.returncode: print(r.stdout[-2000:]); sys.exit('scratch build failed')
def main():
    a = sys.argv[1:]; nocheck = '-n' in a; ids = [x for x in a if x != '-n'] or sorted(os.listdir(V + '/seeded'))
    prepare(); base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = os.path.join(V, 'seeded', i); meta = json.load(open(d + '/meta.json')); msg = []
        dd = '/tmp/vpseed/demo'; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
        r = sh('timeout 300 bash %s/demo.sh' % dd, cwd=S); clean = r.returncode
        if clean: msg.append('DEMO FAILS ON CLEAN TREE: ' + r.stdout[-300:])
        r = sh('git apply %s/patch.diff' % d, cwd=S)
        if r.returncode: print(i, 'PATCH DOES NOT APPLY', r.stdout[:300]); continue
        r = sh('bash %s/build.sh' % P)
        if r.returncode: print(i, 'DOES NOT BUILD', r.stdout[-500:])
        else:
            r = sh('bash %s/test.sh /tmp/vpseed/o.json' % P); ok = set(json.load(open('/tmp/vpseed/o.json'))['passed'])
            if not base <= ok: msg.append('TESTS FAIL: ' + ', '.join(sorted(base - ok))[:300])
            r = sh('timeout 300 bash %s/demo.sh' % dd, cwd=S)
            if r.returncode == 0: msg.append('DEMO DOES NOT FAIL')
            if not nocheck:
                r = sh('python3 tools/check.py %s quick' % meta['property'], cwd=V, env=dict(os.environ, VP_REPO=S))
                v = 'VIOLATION property=%s' % meta['property'] in r.stdout and r.returncode == 1
                msg.append('caught' if v else 'NOT CAUGHT (exit %d)' % r.returncode)
                m = re.search(r'entry (\S+): (.*)', r.stdout)
                if m: msg.append(m.group(1) + ': ' + m.group(2))
                if not v: msg.append(r.stdout[-600:])
        print(i, meta['property'], '; '.join(msg) or 'ok', flush=True)
        sh('git checkout -q -- .', cwd=S); sh('bash %s/build.sh' % P)
    shutil.rmtree('/tmp/vpseed', ignore_errors=True)
main()
