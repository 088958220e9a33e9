import os,sys,subprocess,json,stat
sys.path.insert(0,'/verif/tools'); import fizz2json
REPO=os.environ.get('SEED_REPO','/repo')
HEAD='''#!/bin/bash
# exit 0: behaves as the property says; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd); o=$(mktemp -d); trap 'rm -rf "$o"' EXIT
FB=/opt/vp/go/bin/fizzbee
run() { "$FB" --output-dir "$o/out" "$@" >"$o/log" 2>&1; }   # fizzbee on a spec, output in $o/log
has() { grep -qF -- "$1" "$o/log" || { echo "expected: $1"; tail -5 "$o/log"; exit 1; }; }
hasnt() { if grep -qF -- "$1" "$o/log"; then echo "unexpected: $1"; exit 1; fi; }
'''
def seed(id,prop,edits,specs,demo,needs,breaks,files={}):
    d='/verif/seeded/'+id
    assert subprocess.run(['git','-C',REPO,'diff','--quiet']).returncode==0
    try:
        for f,old,new in edits:
            p=REPO+'/'+f; s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',REPO,'checkout','-q','--','.'])
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    for n,t in specs.items():
        open(d+'/'+n+'.fizz','w').write(t)
        json.dump(fizz2json.convert(t,n+'.fizz'),open(d+'/'+n+'.json','w'),indent=1)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
    open(d+'/demo.sh','w').write(HEAD+demo); os.chmod(d+'/demo.sh',0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
