import subprocess,sys,os,json,shutil
W0,W='/tmp/plant/w0','/tmp/plant/w2'
def sh(c,t=900,cwd=None):
    try:
        p=subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,cwd=cwd); return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,'timeout'
for i in sys.argv[1:]:
    s=f'/tmp/plant/seeds/{i}'
    if not os.path.exists(s+'/patch.diff'): shutil.copy(f'/tmp/plant/out/{i}.diff',s+'/patch.diff')
    sh(f'git -C {W} checkout -- .')
    rc,o=sh(f'git -C {W} apply {s}/patch.diff')
    if rc: print(i,'APPLY',o); continue
    # regenerate against HEAD
    open(s+'/patch.diff','w').write(sh(f'git -C {W} diff')[1])
    # original lines?
    for l in sh(f'git -C {W} diff -U0')[1].split('\n'):
        if l.startswith('--- a/'): f=l[6:]
        if l.startswith('@@'):
            a=l.split()[1][1:].split(','); n=int(a[1]) if len(a)>1 else 1
            if n:
                b=sh(f'git -C {W0} blame -s -L{a[0]},+{n} -- {f}')[1]
                for x in b.strip().split('\n'):
                    if not x.startswith('^1b97fdd'): print(i,'NOT ORIGINAL',x)
    rc,o=sh('bash /tmp/plant/test2.sh /tmp/plant/o2.json'); n=len(json.load(open('/tmp/plant/o2.json'))['passed'])
    os.chmod(s+'/demo.sh',0o755)
    a,oa=sh(f'bash {s}/demo.sh',300,W0); b,ob=sh(f'bash {s}/demo.sh',300,W)
    good=n==15 and a==0 and b!=0 and b!=124
    print(i,'tests',n,'clean',a,'patched',b,'OK' if good else 'BAD')
    print('   clean:',oa[-300:].replace('\n','\n      ')); print('   patched:',ob[-300:].replace('\n','\n      '))
    if good:
        d=f'/verif/seeded/{i}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree(s,d)
    sh(f'git -C {W} checkout -- .')
