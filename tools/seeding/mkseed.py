import os,sys,subprocess,shutil,json,glob
KIT='/tmp/seedkit'
L='programs/core/src/lib.rs'; C='programs/core/src/context.rs'
P='programs/core/src/'
SEEDS=[]
if not os.path.isdir('/tmp/mk'): subprocess.run(['git','clone','-q','/repo','/tmp/mk'],check=True)
subprocess.run(['git','-C','/tmp/mk','pull','-q'],check=True)
def seed(id,prop,needs,breaks,edits,demo):
    SEEDS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo))
def git(*a): return subprocess.run(['git','-C','/tmp/mk',*a],capture_output=True,text=True)
def make(s):
    assert git('status','--short').stdout=='' , 'dirty repo'
    try:
        for e in s['edits']:
            f,o,n=e[:3]; cnt=e[3] if len(e)>3 else None
            p='/tmp/mk/'+f; t=open(p).read()
            k=t.count(o)
            if cnt is None:
                assert k==1,(s['id'],f,k,o)
                t=t.replace(o,n)
            else:
                parts=t.split(o); assert len(parts)>cnt+1,(s['id'],k)
                t=o.join(parts[:cnt+1])+n+o.join(parts[cnt+1:])
            open(p,'w').write(t)
        d='/verif/seeded/'+s['id']
        shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/src')
        open(d+'/patch.diff','w').write(git('diff').stdout)
    finally:
        git('checkout','-q','--','.')
    for f in ('Cargo.toml','Cargo.lock','demo.sh'): shutil.copy(KIT+'/'+f,d+'/'+f)
    for f in ('svm.rs','cy.rs','kit.rs'): shutil.copy(KIT+'/src/'+f,d+'/src/'+f)
    open(d+'/src/main.rs','w').write("mod cy;\nmod kit;\nmod svm;\n#[allow(unused_imports)]\nuse kit::*;\n\nfn main() {\n"+''.join('    '+l+'\n' if l.strip() else '\n' for l in s['demo'].strip('\n').split('\n'))+"}\n")
    json.dump(dict(property=s['prop'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    open(d+'/meta.json','a').write('\n')
for f in sorted(glob.glob('/tmp/seeds/*.py')): exec(open(f).read())
want=sys.argv[1:]
for s in SEEDS:
    if not want or s['id'] in want: make(s); print(s['id'])
