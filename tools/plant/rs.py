import subprocess,sys,os,json,time
W='/tmp/plant/w'
for i in sys.argv[1:]:
    i,_,over=i.partition(':')
    d='/verif/seeded/'+i
    if not os.path.exists(d): d='/tmp/plant/seeds/'+i
    p=json.load(open(d+'/meta.json'))['property'] if not over else None
    subprocess.run(f'git -C {W} checkout -q -- . && git -C {W} apply {d}/patch.diff',shell=True,check=True)
    for c in ([p] if p else over.split(',')):
        t=time.time()
        e=dict(os.environ,ZV_REPO=W,ZV_CACHE='/tmp/plant/cache',VERIF_TIER='quick'); e.setdefault('VERIF_SEED','1')
        r=subprocess.run(f'cd /verif && python3-vt checks/run.py {c}',shell=True,capture_output=True,text=True,env=e)
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        print(i,c,r.returncode,len(v),round(time.time()-t),flush=True)
        open(f'/tmp/plant/out/{i}.{c}.log','w').write(r.stdout+r.stderr)
    subprocess.run(f'git -C {W} checkout -q -- .',shell=True)
