import json,sys,re,os,shutil,glob
i,needs,breaks=sys.argv[1:4]
src=sorted(glob.glob(f'/tmp/plant/out/{i}.replay/*/case.json'))[0]; d=json.load(open(src)); sd=os.path.dirname(src)
det=d['detail']
m=re.search(r'first: (.*)',det)
then=re.search(r'zmdp (benchmark --searchStrategy script.*)',det).group(1)
first=m.group(1) if m else sys.argv[4]
mf=first.split()[-1]
o=f'/tmp/plant/seeds/{i}'; os.makedirs(o,exist_ok=True)
shutil.copy(sd+'/'+mf,o)
def q(a): return a.replace('--storageOutputFile st.log ','').replace('--simulationTracesToLogPerEpoch 0','--simulationTracesToLogPerEpoch 0')
open(o+'/demo.sh','w').write(f'''#!/bin/bash
# logs a run, replays its backups, and compares the two runs' logs
D=$(cd "$(dirname "$0")" && pwd)
Z=$(echo "$PWD"/bin/*/zmdp)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$D"/{mf} "$T"; cd "$T" || exit 2
"$Z" {q(first)} > out1 2>&1 || {{ cat out1; exit 3; }}
mkdir in; mv stateIndex.log backups.log boundValues.log q.log in/
"$Z" {q(then)} > out2 2>&1 || {{ cat out2; exit 4; }}
for f in stateIndex.log backups.log; do
  a=$(grep -c . in/$f); b=$(grep -c . $f)
  [ "$a" = "$b" ] || {{ echo "$f: $a lines, $b in the replay"; exit 1; }}
done
''')
json.dump({"property":"C19","needs":needs,"what_it_breaks":breaks},open(o+'/meta.json','w'),indent=1)
