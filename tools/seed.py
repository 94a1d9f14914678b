"""seed tool: python tool.py candidates.py [ids]"""
import sys, os, subprocess, json, shutil, re
S='/tmp/seedrepo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def reset():
    if not os.path.isdir(S): sh('git clone -q /repo %s'%S)
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD'%S)
base=json.load(open('/opt/vp/BASELINE.json'))
ns={}; exec(open(sys.argv[1]).read(), ns); C=ns['C']
want=sys.argv[2:]
for c in C:
    if want and c['id'] not in want: continue
    reset()
    for f,a,b in c['edits']:
        p=os.path.join(S,f); s=open(p).read()
        if s.count(a)<1: print(c['id'],'NOT FOUND',a[:60]); break
        k=c.get('nth',0)
        parts=s.split(a); s=a.join(parts[:k+1])+b+a.join(parts[k+1:])
        open(p,'w').write(s)
    else:
        d='/verif/seeded/'+c['id']; tmp='/tmp/seed/'+c['id']
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        open(tmp+'/patch.diff','w').write(sh('cd %s && git diff'%S).stdout)
        open(tmp+'/demo.py','w').write("import os, sys\nsys.path.insert(0, os.getcwd())\n"+c['demo'])
        open(tmp+'/demo.sh','w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'); os.chmod(tmp+'/demo.sh',0o755)
        json.dump(dict(property=c['prop'],needs=c['needs'],what_it_breaks=c['breaks']),open(tmp+'/meta.json','w'),indent=1)
        env=dict(os.environ, TF_CPP_MIN_LOG_LEVEL='3')
        r1=sh('bash %s/demo.sh'%tmp, cwd=S, env=env); r0=sh('bash %s/demo.sh'%tmp, cwd='/repo', env=env)
        t=sh('rm -f /tmp/seed/j.xml; . /opt/vp/env.sh; /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider -n 8 --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed/j.xml', cwd=S, env=env)
        sh('/usr/bin/python3 /opt/vp/results.py /tmp/seed/out.json junit:/tmp/seed/j.xml')
        o=json.load(open('/tmp/seed/out.json'))
        def passed(j):
            for k in ('passed','pass','stable','tests'):
                if k in j: return set(j[k]) if not isinstance(j[k],dict) else {a for a,b in j[k].items() if b in ('passed','pass',True)}
        lost=sorted(passed(base)-passed(o))
        ok = r0.returncode==0 and r1.returncode!=0 and not lost
        print(c['id'], 'clean demo', r0.returncode, 'patched demo', r1.returncode, 'lost', len(lost), lost[:2], 'OK' if ok else 'BAD', flush=True)
        if r0.returncode: print(r0.stderr[-400:])
        if r1.returncode: print("   ", ((r1.stdout+r1.stderr).strip().splitlines() or [""])[-1][:160])
        if ok:
            shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp,d)
            e=dict(os.environ, VK_REPO=S, VK_EVIDENCE='/tmp/ev')
            r=sh('timeout 880 /opt/venv/bin/python check.py %s quick'%c['prop'], cwd='/verif', env=e)
            v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            print('    check rc', r.returncode, len(v), (v[0][:170] if v else r.stdout.strip().splitlines()[-1][:170] if r.stdout.strip() else r.stderr[-200:]), flush=True)
