"""Helper to author planted bugs (not used by any check).

seed(id, prop, edits, demo, sources, needs, breaks, flags) writes /verif/seeded/<id>/ and confirms, on /repo itself with
the change applied and undone again, that it builds, that the stable tests pass and that the demonstration separates."""
import json, os, shutil, subprocess, sys
REPO='/repo'; V='/verif'
DEMO='''#!/bin/bash
# cwd: the repository. Builds the demonstration beside this file in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX)
trap 'cd /; rm -r -f "$work"' EXIT
inc="-I$here/include"
for d in "$PWD"/ecl_*/include; do inc="$inc -I$d"; done
export DEMO_INC="$inc" DEMO_SRC="$here/demo.cpp"
g++ -std=c++17 -O1 -w -pthread %(flags)s $inc -isystem /usr/include/eigen3 "$here/demo.cpp" %(srcs)s -o "$work/demo" %(libs)s || exit 2
cd "$work" && timeout 120 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,text=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
def seed(id, prop, edits, demo, sources=(), needs='', breaks='', flags='', libs=''):
    d=f'{V}/seeded/{id}'
    assert not sh(f'git -C {REPO} status --porcelain').stdout.strip(), 'repo dirty'
    os.makedirs(d,exist_ok=True)
    if os.path.isdir(d+'/include'): shutil.rmtree(d+'/include')
    shutil.copytree(V+'/shim/include', d+'/include')
    open(d+'/demo.cpp','w').write(demo)
    srcs=' '.join(f'"$PWD"/{s}' for s in ['ecl_exceptions/src/lib/*.cpp',*sources])
    open(d+'/demo.sh','w').write(DEMO%dict(flags=flags,srcs=srcs,libs=libs)); os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r0=sh(f'bash {d}/demo.sh',cwd=REPO)
    ok=r0.returncode==0
    if not ok: print(id,'DEMO FAILS ON CLEAN',r0.stdout[-1500:])
    try:
        for f,old,new in edits:
            t=open(f'{REPO}/{f}').read(); assert t.count(old)>=1,(id,f,'old text not found'); assert t.count(old)==1,(id,f,'ambiguous',t.count(old))
            open(f'{REPO}/{f}','w').write(t.replace(old,new))
        open(d+'/patch.diff','w').write(sh(f'git -C {REPO} diff').stdout)
        # at least one original line goes, and no line of a repair does
        for f,old,new in edits:
            hunks=__import__('re').findall(r'^@@ -(\d+)(?:,(\d+))?',sh(f'git -C {REPO} diff -U0 -- {f}').stdout,8)
            n=0
            for a,c in hunks:
                for ln in range(int(a),int(a)+int(c or 1)):
                    n+=1
                    if not sh(f'git -C {REPO} blame -s -L{ln},{ln} HEAD -- {f}').stdout.startswith('^'): ok=False; print(id,'CHANGES A REPAIRED LINE',f,ln)
            if not n: print(id,'note: only adds lines to',f)
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: ok=False; print(id,'BUILD FAILS',b.stdout[-1500:])
        sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        passed=set(json.load(open('/tmp/seedtest.json'))['passed'])
        miss=[t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
        if miss: ok=False; print(id,'TESTS FAIL',miss)
        r1=sh(f'bash {d}/demo.sh',cwd=REPO)
        if r1.returncode in (0,): ok=False; print(id,'DEMO PASSES WITH PATCH')
        if r1.returncode==2: ok=False; print(id,'DEMO DOES NOT COMPILE',r1.stdout[-1500:])
        c=sh(f'python3 check.py {prop}',cwd=V) if os.path.exists(f'{V}/harness/{prop}.cpp') or os.path.exists(f'{V}/harness/{prop}.py') else None
        caught = c is not None and c.returncode==1 and f'VIOLATION property={prop}' in c.stdout
        print(id,'ok' if ok else 'NOT OK','| caught' if caught else f'| MISSED rc={c and c.returncode}', '|', (r1.stdout.strip().splitlines() or [''])[-1][:100], '|', (c.stdout.strip().splitlines() or [''])[-1][:160] if c else '')
    finally:
        sh(f'git -C {REPO} checkout -- .')
    return ok
