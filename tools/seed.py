#!/usr/bin/env python3
"""Development helper (no check uses it): makes and confirms one planted bug.
usage: seed.py <id> <property> <edits.py>
edits.py defines EDITS=[(file, old, new)], MAIN (Go demo program, package main), NEEDS, BREAKS [, RACE]"""
import sys,os,json,subprocess,shutil,tempfile
sid,prop,ef=sys.argv[1:4]
ns={}; exec(open(ef).read(),ns)
d='/verif/seeded/'+sid
os.makedirs(d,exist_ok=True)
w='/tmp/seedwt'; subprocess.run(['rm','-rf',w]); subprocess.run(['cp','-a','/repo',w],check=True)
for f,o,n in ns['EDITS']:
    p=w+'/'+f; s=open(p).read()
    if s.count(o)!=1: sys.exit('edit does not match once (%d): %s %r'%(s.count(o),f,o))
    open(p,'w').write(s.replace(o,n))
diff=subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(diff)
open(d+'/main.go','w').write(ns['MAIN'])
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/zzdemo/main.go": "$here/main.go"}}
EOF
go build %s -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 0
cd "$tmp" && timeout 60 ./demo
'''%ns.get('FLAGS',''))
os.chmod(d+'/demo.sh',0o755)
json.dump(dict(property=prop,needs=ns['NEEDS'],what_it_breaks=ns['BREAKS']),open(d+'/meta.json','w'),indent=1)
def demo(): 
    r=subprocess.run([d+'/demo.sh'],cwd='/repo',capture_output=True,text=True); return r
# run demo in /repo (unchanged), then with patch applied in /repo
assert subprocess.run(['git','status','--porcelain'],cwd='/repo',capture_output=True,text=True).stdout=='' , 'repo dirty'
r=demo(); 
if r.returncode!=0: sys.exit('demo fails on unchanged tree: '+r.stdout+r.stderr)
subprocess.run(['git','apply',d+'/patch.diff'],cwd='/repo',check=True)
try:
    b=subprocess.run(['bash','/opt/vp/build.sh'],capture_output=True,text=True)
    if b.returncode: sys.exit('build fails: '+b.stderr)
    r=demo()
    if r.returncode==0: print('!! demo passes with patch',r.stdout,r.stderr)
    else: print('demo with patch rc',r.returncode,(r.stdout+r.stderr)[:300])
    subprocess.run(['bash','/opt/vp/test.sh','/tmp/seedout.json'],capture_output=True)
    o=json.load(open('/tmp/seedout.json')); bl=json.load(open('/opt/vp/BASELINE.json'))['stable']
    miss=[t for t in bl if t not in set(o['passed'])]
    if miss: print('!! stable tests fail:',miss[:5])
    else: print('stable tests pass')
    c=subprocess.run(['/verif/run.sh',prop,'quick'],capture_output=True,text=True)
    print('check',prop,'rc',c.returncode,'\n'.join(l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'KNOWN' in l)[:300] or c.stdout[-600:]+c.stderr[-600:])
finally:
    subprocess.run(['git','checkout','--','.'],cwd='/repo',check=True)
    subprocess.run(['rm','-rf',w])
