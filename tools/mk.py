# mk.py: helper to create a seeded bug: mk(id, file, old, new, meta, files)
import os,subprocess,json,tempfile
def mk(id, edits, prop, needs, breaks, demo, files={}):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    diff=''
    for f,old,new in edits:
        p='/repo/'+f; s=open(p,encoding='latin1').read()
        # several edits to the same file must be given as a list of (old,new)
        pairs=old if isinstance(old,list) else [(old,new)]
        n=s
        for o,w in pairs:
            assert n.count(o)==1,(id,f,n.count(o),o)
            n=n.replace(o,w)
        a=tempfile.mkdtemp()
        os.makedirs(a+'/a/'+os.path.dirname(f)); os.makedirs(a+'/b/'+os.path.dirname(f))
        open(a+'/a/'+f,'w',encoding='latin1').write(s); open(a+'/b/'+f,'w',encoding='latin1').write(n)
        r=subprocess.run(['git','diff','--no-index','--no-color','a/'+f,'b/'+f],cwd=a,stdout=subprocess.PIPE)
        t=r.stdout.decode('latin1').replace('a/a/','a/').replace('b/b/','b/')
        diff+=t
        subprocess.run(['rm','-rf',a])
    open(d+'/patch.diff','w',encoding='latin1').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    for k,v in files.items(): open(d+'/'+k,'w').write(v)
CDEMO='''#!/bin/bash
# run in /repo after the build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
gcc -w -O1 -I src/PUBLIC_INCLUDES "$D/demo.c" -o "$T/demo" _build/librmn.a -lgfortran -lm -lpthread -ldl || exit 3
cd "$T" && timeout 60 ./demo
'''
FULLDEMO='''#!/bin/bash
# run in /repo after the build; builds the whole library (with the App stub beside this file) in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d) || exit 3; trap 'rm -rf "$T"' EXIT
(cmake -G Ninja -S "$D/cmake" -B "$T/b" -DREPO="$R" -DCMAKE_BUILD_TYPE=None -DCMAKE_C_FLAGS=-O1 -DCMAKE_Fortran_FLAGS=-O1 -DCMAKE_CXX_FLAGS=-O1 && ninja -C "$T/b") >"$T/log" 2>&1 || { tail -30 "$T/log"; exit 3; }
g++ -std=c++17 -w -fpermissive -O1 -I "$R/src/PUBLIC_INCLUDES" -I "$D/appstub" "$D/demo.cc" -o "$T/demo" -Wl,--start-group "$T/b/librmn.a" -Wl,--end-group -lgfortran -lm -lpthread -ldl || exit 3
mkdir "$T/w"; cd "$T/w" && timeout 100 ../demo >"$T/out" 2>&1; s=$?; grep -v '^c_fst' "$T/out" | tail -5; exit $s
'''
import shutil
def mkf(id, edits, prop, needs, breaks, demo, files={}):
    files=dict(files); files['demo.cc']=demo
    mk(id,edits,prop,needs,breaks,FULLDEMO,files)
    d='/verif/seeded/'+id
    for x in ('cmake','appstub'):
        shutil.rmtree(d+'/'+x,ignore_errors=True); shutil.copytree('/verif/'+x,d+'/'+x)
