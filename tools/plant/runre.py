import subprocess,sys,os
sys.path.insert(0,'/tmp/plant')
from mutsre import M
W='/tmp/plant/wr'
for i,f,o,n in M:
    if sys.argv[1:] and i not in sys.argv[1:]: continue
    subprocess.run(f'git -C {W} checkout -q -- .',shell=True)
    s=open(f'{W}/{f}').read()
    if s.count(o)!=1: print(i,'COUNT',s.count(o)); continue
    open(f'{W}/{f}','w').write(s.replace(o,n))
    open(f'out/{i}.diff','w').write(subprocess.run(f'git -C {W} diff',shell=True,capture_output=True,text=True).stdout)
    r=subprocess.run('cd /verif && python3-vt checks/run.py C29',shell=True,capture_output=True,text=True,env=dict(os.environ,ZV_REPO=W,ZV_CACHE='/tmp/plant/cacher',VERIF_SEED='1'))
    L=r.stdout.splitlines()
    print(i,r.returncode,[L[k+1][:110].strip() for k in range(len(L)) if L[k].startswith('VIOLATION')],flush=True)
