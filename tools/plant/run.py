import subprocess,os,sys,json,time
sys.path.insert(0,'/tmp/plant')
import importlib
mods=sys.argv[1]; ids=sys.argv[2:]
M=importlib.import_module(mods).M
DROP=set()
W=os.environ.get('PW','/tmp/plant/w')
def sh(c,t=900,env=None):
    e=dict(os.environ); e.update(env or {})
    try:
        p=subprocess.run(c,shell=True,capture_output=True,text=True,timeout=t,env=e)
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired as x:
        subprocess.run('pkill -9 -f san-',shell=True); return 124,str(x.stdout)[-2000:]
R='/tmp/plant/results.jsonl'
done={json.loads(l)['id'] for l in open(R)} if os.path.exists(R) and not ids else set()
for x in M:
    if ids and x['id'] not in ids: continue
    if not ids and (x['id'] in DROP or x['id'] in done): continue
    sh(f'git -C {W} checkout -- .')
    p=f"{W}/{x['f']}"; os.environ.pop('X',None); s=open(p).read()
    if s.count(x['old'])!=1: print(x['id'],'OLD COUNT',s.count(x['old'])); continue
    open(p,'w').write(s.replace(x['old'],x['new']))
    rc,d=sh(f'git -C {W} diff'); open(f"/tmp/plant/out/{x['id']}.diff",'w').write(d)
    rc,o=sh('bash /tmp/plant/test.sh /tmp/plant/o.json')
    r=json.load(open('/tmp/plant/o.json'))
    res=dict(id=x['id'],prop=x['prop'],tests=len(r['passed']),checks={})
    if len(r['passed'])==15:
        for c in x['checks']:
            t=time.time()
            rc,o=sh(f'cd /verif && python3-vt checks/run.py {c}',900,{'ZV_REPO':W,'ZV_CACHE':'/tmp/plant/cache','VERIF_SEED':'1','VERIF_TIER':'quick'})
            v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
            res['checks'][c]=dict(rc=rc,t=round(time.time()-t),n=len(v),tail=o[-1500:] if rc not in(0,) else '')
            if rc==1: sh(f"rm -rf /tmp/plant/out/{x['id']}.replay; cp -r /verif/replay/{c} /tmp/plant/out/{x['id']}.replay")
            if rc==1 and not os.environ.get('ALL'): break
    else: res['log']=o[-1500:]
    open(R,'a').write(json.dumps(res)+'\n')
    print(x['id'],res['tests'],{c:(v['rc'],v['n'],v['t']) for c,v in res['checks'].items()},flush=True)
sh(f'git -C {W} checkout -- .')
