#!/usr/bin/env python3
"""usage: fix.py FILE.py   FILE defines fixes=[(msg, prop, what, [(file,old,new[,count])])].
Applies, formats, tests and commits each repair, and notes it in known_findings.txt."""
import sys, subprocess, fcntl
_l=open('/tmp/fix.lock','w'); fcntl.flock(_l, fcntl.LOCK_EX)
d={}; exec(open(sys.argv[1]).read(), d)
for msg, prop, what, edits in d['fixes']:
    for e in edits:
        f,old,new=e[:3]; n=e[3] if len(e)>3 else 1
        p='/repo/'+f; t=open(p).read()
        if t.count(old)!=n: sys.exit(f'{msg}: {t.count(old)} matches of {old!r}')
        open(p,'w').write(t.replace(old,new))
        subprocess.run(['rustfmt','--edition','2021',p])
    r=subprocess.run(['bash','/verif/tools/commit_repo.sh','fix: '+msg],capture_output=True,text=True)
    print(r.stdout, flush=True)
    if 'NOT COMMITTED' in r.stdout: sys.exit(1)
    h=subprocess.check_output(['git','-C','/repo','log','--format=%h','-1'],text=True).strip()
    open('/verif/known_findings.txt','a').write(f'fixed: property={prop} {h} {what}\n')
