#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines id, prop, needs, breaks, edits=[(file, old, new)], prog (or demo), files={}, stdin, args.
Creates /verif/seeded/<id> after confirming it in a scratch copy."""
import sys, os, subprocess, json, shutil, tempfile, difflib
spec={'files':{},'stdin':'','demo':None,'prog':None,'expect':None,'needs':'','breaks':'','reject':False,'batch':False}
exec(open(sys.argv[1]).read(),spec)
ID=spec['id']; W='/tmp/seedrepo'
shutil.rmtree(W,ignore_errors=True)
subprocess.check_call(['cp','-a','/repo',W])
def run(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
run('git checkout -q -- .',cwd=W)
base=run('git show de4a828:%s',cwd=W)
for f,old,new in spec['edits']:
    s=open(f'{W}/{f}').read()
    if s.count(old)!=1: sys.exit(f'{f}: {s.count(old)} matches for {old!r}')
    open(f'{W}/{f}','w').write(s.replace(old,new))
    orig=run(f'git show de4a828:{f}',cwd=W).stdout
# removed lines must be original lines
patch=run('git diff',cwd=W).stdout
for l in patch.splitlines():
    if l.startswith('-') and not l.startswith('---') and l[1:].strip():
        f=[x for x,_,_ in spec['edits']]
        if not any(l[1:] in run(f'git show de4a828:{x}',cwd=W).stdout.splitlines() for x in f): print('NOTE: not an original line:',l)
out=f'/verif/seeded/{ID}'
shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
open(out+'/patch.diff','w').write(patch)
json.dump({'property':spec['prop'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(out+'/meta.json','w'),indent=1)
demo=spec['demo']
if demo is None:
    open(out+'/prog.tsh','w').write(spec['prog'])
    for n,c in spec['files'].items():
        os.makedirs(os.path.dirname(f'{out}/{n}'),exist_ok=True); open(f'{out}/{n}','w').write(c)
    open(out+'/stdin.txt','w').write(spec['stdin'])
    demo='''#!/bin/bash
# transpiles prog.tsh with the tree in the current directory, runs the script in a scratch directory and compares the output
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
go build -o "$t/tsh" . || exit 2
cp -r std "$t/std"
mkdir "$t/src" "$t/out" "$t/run"
cp -r "$here"/. "$t/src/"
"$t/tsh" -i "$t/src/prog.tsh" -t bash -o "$t/out" >"$t/log" 2>&1 || { '''+('exit 0' if spec['reject'] else 'cat "$t/log"; exit 1')+'''; }
'''+('echo "ill-formed program was translated"; exit 1' if spec['reject'] else '''cd "$t/run" || exit 2
timeout 20 bash "$t/out/prog.sh" <"$here/stdin.txt" >"$t/stdout" 2>"$t/stderr"
echo "status $?" >>"$t/stdout"
cat "$t/stderr" >>"$t/stdout"
diff "$here/expect.txt" "$t/stdout"
''')
if spec['batch']:
    demo=demo.replace('-t bash','-t batch').replace('timeout 20 bash "$t/out/prog.sh"','timeout 60 python3 "$here/minicmd.py" "$t/out/prog.bat"').replace('runs the script in','runs the Batch script (minicmd.py) in')
    shutil.copy('/verif/tools/minicmd.py',out+'/minicmd.py')
open(out+'/demo.sh','w').write(demo)
def rundemo(cwd): return run(f'bash {out}/demo.sh',cwd=cwd,timeout=300)
if spec['prog'] and not spec['reject']:
    if spec['expect'] is not None: open(out+'/expect.txt','w').write(spec['expect'])
    else:
        open(out+'/expect.txt','w').write('')
        r=rundemo('/repo')
        e=''.join(l[2:]+'\n' for l in r.stdout.splitlines() if l.startswith('> '))
        open(out+'/expect.txt','w').write(e); print('EXPECT (from the unchanged tree):\n'+e)
r0=rundemo('/repo'); print('unchanged:',r0.returncode, r0.stdout[-300:] if r0.returncode else '', r0.stderr[-300:])
r1=rundemo(W); print('changed:',r1.returncode, (r1.stdout+r1.stderr)[-500:])
# stable tests on the changed tree
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off',GOTOOLCHAIN='local',CGO_ENABLED='0')
t=subprocess.run('go build ./... && go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|ok|panic)"',shell=True,capture_output=True,text=True,cwd=W,env=env)
print(t.stdout[-600:],t.stderr[-300:])
ok=r0.returncode==0 and r1.returncode!=0 and 'FAIL' not in t.stdout
print('SEED OK' if ok else 'SEED BAD',ID)
shutil.rmtree(W,ignore_errors=True)
if not ok: shutil.rmtree(out)
