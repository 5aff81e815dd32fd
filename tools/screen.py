#!/usr/bin/env python3
"""screen.py FILE.py [ID...]: applies each mutation of MUT = {id: (checks, [(file, old, new)])} to a scratch copy, runs
the repository's tests and the checks, prints what happened. Scratch copy: /tmp/sr (made by seedtest.sh)."""
import sys, os, subprocess, runpy, json
m = runpy.run_path(sys.argv[1])['MUT']
ids = sys.argv[2:] or list(m)
os.makedirs('/tmp/sr', exist_ok=True)
for i in ids:
    checks, edits = m[i][0], m[i][1]
    diff = subprocess.run(['git', '-C', '/repo', 'status', '--short'], capture_output=True, text=True).stdout
    script = ['cd /tmp/sr/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD']
    subprocess.run(['bash', '-c', script[0]], check=True)
    subprocess.run('rsync -rpc --delete /verif/harness/ /tmp/sr/verif/harness/; cp /verif/*.sh /verif/known_findings.jsonl /tmp/sr/verif/', shell=True)
    ok = True
    for f, old, new in edits:
        p = '/tmp/sr/repo/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print(i, 'BAD EDIT', f, s.count(old)); ok = False; break
        open(p, 'w').write(s.replace(old, new))
    if not ok: continue
    d = subprocess.run('git diff -U0', shell=True, cwd='/tmp/sr/repo', capture_output=True, text=True).stdout
    cur = None
    for l in d.splitlines():
        if l.startswith('--- a/'): cur = subprocess.run(['git', '-C', '/repo', 'show', '41d8903:' + l[6:]], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('-') and l[1:] not in cur: print(i, 'NOT ORIGINAL', l); ok = False
    if not ok: continue
    sh = f'''
mount --bind /tmp/sr/repo /repo && mount --bind /tmp/sr/vp /opt/vp && mount --bind /tmp/sr/verif /verif || exit 9
cd /repo
bash /opt/vp/build.sh >/tmp/sr/build.log 2>&1 || {{ echo "does not build"; grep -A6 ^error /tmp/sr/build.log | head -20; exit 9; }}
for c in {checks}; do VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $c quick > /tmp/sr/check-$c.log 2>&1; echo "  check $c: $? $(grep -c ^VIOLATION /tmp/sr/check-$c.log) violations; $(grep "class:" /tmp/sr/check-$c.log | sort | uniq -c | sort -rn | head -2 | cut -c1-110 | tr '\\n' ';')"; done
bash /opt/vp/test.sh /tmp/sr/res.json >/tmp/sr/test.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('/tmp/sr/res.json'))
p=set(r.get('passed',r.get('pass',[])))
m=[x for x in b['stable'] if x not in p]
print('  stable tests failing:',len(m),m[:4])"
'''
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', sh], capture_output=True, text=True)
    print(i + ':', flush=True); print(r.stdout.rstrip(), r.stderr[-300:], flush=True)
    subprocess.run('cd /tmp/sr/repo && git checkout -q -- .', shell=True)
