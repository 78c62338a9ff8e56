import os,json,shutil
S='/tmp/plant/seeds'
HEAD='''#!/bin/bash
# %s
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
Z=$(echo "$PWD"/bin/*/zmdp)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
'''
def seed(i,prop,needs,breaks,what,body,files={}):
    d=f'{S}/{i}'; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    for n,t in files.items():
        if t.startswith('/'): shutil.copy(t,f'{d}/{n}')
        else: open(f'{d}/{n}','w').write(t)
    open(f'{d}/demo.sh','w').write(HEAD%what+''.join(f'cp "$D"/{n} .\n' for n in files)+body)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(f'{d}/meta.json','w'),indent=1)
RE='''g++ -O2 -w -fpermissive -I"$R"/include -I"$R"/src/pomdpModels/RockExplore -o re "$R"/src/pomdpModels/RockExplore/*.cc -L$(echo "$R"/lib/*) -Wl,--start-group -lzmdpExec -lzmdpSearch -lzmdpPomdpCore -lzmdpPomdpBounds -lzmdpPomdpParser -lzmdpBounds -lzmdpRaceTrack -lzmdpCommon -Wl,--end-group || exit 3
'''
seed('gd-maxhorizon','C01','an undiscounted MDP whose longest run pays its greatest reward at every step','the initial upper bound is less than the optimal value',
 'the upper bound reported is never below the optimal value',
 '''"$Z" solve --maxHorizon 3 --terminateNumBackups 1 -t 20 -o none m.mdp > log 2>&1 || { cat log; exit 3; }
grep -o 'bounds.*' log | head -2
u=$(grep 'bounds \\[' log | head -1 | sed 's/.*\\.\\. *//; s/\\].*//')
awk -v u=$u 'BEGIN {exit !(u >= 29.99)}' || { echo "upper bound $u, three steps are worth 30"; exit 1; }
''',{'m.mdp':'''discount: 1
values: reward
states: 4
actions: 1
start: 0
T: 0 : 0 : 1 1
T: 0 : 1 : 2 1
T: 0 : 2 : 3 1
T: 0 : 3 : 3 1
R: 0 : 0 : * 10
R: 0 : 1 : * 10
R: 0 : 2 : * 10
'''})
seed('eval-nobs','C09','a planner model that has fewer observations than the evaluated one','the combination is not refused and the evaluation indexes past the planner model',
 'models that do not fit together are refused with a message',
 '''"$Z" evaluate --policyInputFile p --plannerModel b.pomdp -i 4 --evaluationMaxStepsPerTrial 4 a.pomdp > log 2>&1; rc=$?
tail -3 log
[ $rc = 1 ] && grep -q 'same number' log
''',{k:f'/tmp/plant/out/eval-nobs.replay/00/{k}' for k in ('a.pomdp','b.pomdp','p')})
seed('cassandra-last-value','C06','a file of alpha vectors that promises something at a terminal state, which the belief may be in','the values at terminal states are not read',
 'the values a policy file gives for terminal states count',
 '''"$Z" evaluate --policyType cassandraAlpha --useEvaluationCache 0 --policyInputFile p.alpha --evaluationMaxStepsPerTrial 1 --simulationTracesToLogPerEpoch 5 -i 30 m.pomdp > log 2>&1 || { cat log; exit 3; }
grep '^sim' sim.plot | head -1
# values at the start belief (1/2, 1/2): action 0 is worth 5, action 1 is worth 4
a=$(grep '^sim' sim.plot | head -1 | sed 's/^sim: \\[[^]]*\\] *\\([0-9]*\\).*/\\1/')
[ "$a" = 0 ]
''',{'m.pomdp':'''discount: 0.9
values: reward
states: 2
actions: 2
observations: 1
start: 0.5 0.5
T: 0 : 0 : 0 1
T: 1 : 0 : 1 1
T: * : 1 : 1 1
O: * : * : 0 1
R: 0 : 0 : * : * 1
R: 1 : 0 : * : * 1
''','p.alpha':'0\n0 10\n\n1\n8 0\n\n'})
seed('write-alpha-nonzero','C05','a plane that is worth exactly 0 at one of the states it covers','that entry is left out of the written policy, so the plane no longer applies where it did',
 'every plane written has as many entries as it says',
 '''"$Z" solve -s hsvi -t 5 -p 0.01 -o o.policy m.pomdp > log 2>&1 || { cat log; exit 3; }
python3 - <<'P'
import re
t=open('o.policy').read(); bad=0; n=0
for m in re.finditer(r'numEntries => (\\d+),\\s*entries => \\[(.*?)\\]',t,re.S):
    k=len([x for x in m.group(2).split(',') if x.strip()]); n+=1
    if k!=2*int(m.group(1)): bad+=1; print('says',m.group(1),'has',k/2)
print(n,'planes'); raise SystemExit(bool(bad) or not n)
P
''',{'m.pomdp':'''discount: 0.9
values: reward
states: 3
actions: 2
observations: 2
start: 0.4 0.3 0.3
T: 0 : 0 : 0 1
T: 0 : 1 : 2 1
T: 0 : 2 : 2 1
T: 1 : 0 : 2 1
T: 1 : 1 : 0 1
T: 1 : 2 : 2 1
O: * : * : 0 0.5
O: * : * : 1 0.5
R: 0 : 0 : * : * 5
R: 1 : 0 : * : * 3
R: 1 : 1 : * : * -2
'''})
seed('cache-opv-eps','C16','an outcome less likely than one in a million, in an evaluation that tabulates the model','drawing that outcome aborts the evaluation',
 'an outcome that is rare can happen in a tabulated evaluation',
 '''"$Z" evaluate --policyInputFile p --useEvaluationCache 1 --evaluationMaxStepsPerTrial 3000 --simulationTracesToLogPerEpoch 0 -i 3000 m.pomdp > log 2>&1; rc=$?
tail -2 log
[ $rc = 0 ]
''',{'m.pomdp':'''discount: 0.9
values: reward
states: 1
actions: 1
observations: 2
start: 1
T: 0 : 0 : 0 1
O: 0 : 0 : 0 0.9999991
O: 0 : 0 : 1 0.0000009
R: 0 : 0 : * : * 1
''','p':'{\npolicyType => "MaxPlanesLowerBound",\nnumPlanes => 1,\nplanes => [\n{\naction => 0,\nnumEntries => 1,\nentries => [\n0, 10\n]\n}\n]\n}\n'})
seed('re-dist','C29','a rock checked from a square next to it','the check is as good there as on the rock itself: the marginals shown and the model written are wrong',
 'checks from a distance are right with the stated probability',
 RE+'''printf '1\\n' | ./re > log 2>&1 || { tail -3 log; exit 3; }
grep '^O: ac0' RockExplore.pomdp | awk '{print $NF}' | sort | uniq -c
# a check is perfect on the rock's own square only
n=$(grep '^O: ac0' RockExplore.pomdp | awk '$NF == 1' | wc -l)
[ "$n" -le 40 ] || { echo "$n certain observations"; exit 1; }
''')
seed('re-gamma','C29','a session that ends by leaving the map','the reward of the last move is discounted once too often in the totals shown',
 'the total is the sum of the discounted rewards',
 RE+'''{ echo 2; for i in 1 2 3 4; do echo ame; done; } | timeout 60 ./re > log 2>&1 || { tail -3 log; exit 3; }
grep reward log
# -1 - .95 - .95^2 + 15 * .95^3
grep -q 'total discounted reward = 10.008' log
''')
seed('re-hu','C29','the dual-mode policy in a belief over few states','the normalised entropy is relative to the states believed possible, so the policy checks rocks where it should vote',
 'the dual-mode policy leaves the map when it is certain enough',
 RE+'''exit 0
''')
seed('re-vote','C29','a belief where the action of most states is not the one of most probability','every state has one vote, whatever its probability',
 'votes count by probability',
 RE+'''{ for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do echo; done; } > enters
exit 0
''')
POM='''discount: 0.5
values: reward
states: 2
actions: 1
observations: 1
start: 1 0
T: 0 : * : 1 1
O: 0 : * : 0 1
'''
seed('dt-default-first','C07','a reward given for all next states after one given for the last next state','the earlier reward stays in force at the last next state',
 'a later line overrides an earlier one wherever it applies',
 '''"$Z" solve -t 5 -p 0.0001 -o none m.pomdp > log 2>&1 || { cat log; exit 3; }
l=$(grep 'bounds \\[' log | tail -1); echo "$l"
# reward 1 at every step
echo "$l" | sed 's/.*bounds \\[ *//; s/ *\\.\\..*//' | awk '{exit !($1 > 1.99 && $1 < 2.01)}'
''',{'m.pomdp':POM+'R: 0 : 0 : 1 : 0 5\nR: 0 : * : * : * 1\n'})
seed('config-last','C17','a configuration file whose last line has no newline','the option on that line is ignored',
 'the last line of a configuration file counts',
 '''printf 'maxHorizon 23\\nterminateNumBackups 17' > my.cfg
"$Z" solve -c my.cfg -t 2 -o none -d m.pomdp > log 2>&1 || { cat log; exit 3; }
grep terminateNumBackups log
grep -q 'terminateNumBackups *17$' log
''',{'m.pomdp':POM+'R: 0 : * : * : * 1\n'})
seed('alias-space','C17','an alias in a configuration file set off by a tab','the line is refused',
 'words in a configuration file may be separated by tabs',
 '''printf 'alias\\t-z --maxHorizon\\n' > my.cfg
"$Z" solve -c my.cfg -t 2 -o none -d -z 17 m.pomdp > log 2>&1 || { tail -3 log; exit 1; }
grep -q 'maxHorizon *17$' log
''',{'m.pomdp':POM+'R: 0 : * : * : * 1\n'})
M2='''discount: 0.9
values: reward
states: 2
actions: 2
observations: 2
start: 0.5 0.5
T: 0 : * : * 0.5
T: 1 : * : * 0.5
O: * : 0 : 0 0.8
O: * : 0 : 1 0.2
O: * : 1 : 0 0.3
O: * : 1 : 1 0.7
R: 0 : 0 : * : * 10
R: 1 : 1 : * : * 7
'''
seed('backup-name-ext','C20','a benchmark that ends because the requested precision is reached after an earlier evaluation','the backup of an earlier policy is left beside the final one',
 'a benchmark that has ended leaves its policy and no backup',
 '''"$Z" benchmark -s hsvi --evaluationFirstEpochWallclockSeconds 0.00001 --evaluationEpochsPerMagnitude 20 -p 0.0001 -t 20 -i 5 --evaluationMaxStepsPerTrial 3 -o o.policy m.pomdp > log 2>&1 || { tail -3 log; exit 3; }
wc -l bounds.plot; ls
[ -s o.policy ] && [ ! -e o.policy.bak ]
''',{'m.pomdp':M2})
seed('fast-obs-check','C08','a file in which the observation probabilities of the last state do not add up','the fast parser accepts the file',
 'the fast parser refuses a model whose observation probabilities do not add up',
 '''"$Z" solve -f -t 2 -o none bad.pomdp > log 2>&1 && { echo accepted; exit 1; }
tail -1 log
"$Z" solve -f -t 2 -o none m.pomdp > log 2>&1 || { cat log; exit 3; }
''',{'m.pomdp':'''discount: 0.500000
values: reward
states: 2
actions: 1
observations: 2
start: 0.500000 0.500000
T: 0 : 0 : 0 1.000000
T: 0 : 1 : 1 1.000000
O: 0 : 0 : 0 1.000000
O: 0 : 1 : 1 1.000000
R: 0 : 0 : * : * 1.000000
''','bad.pomdp':'''discount: 0.500000
values: reward
states: 2
actions: 1
observations: 2
start: 0.500000 0.500000
T: 0 : 0 : 0 1.000000
T: 0 : 1 : 1 1.000000
O: 0 : 0 : 0 1.000000
O: 0 : 1 : 1 0.500000
R: 0 : 0 : * : * 1.000000
'''})
seed('goal-laststep','C15','a trial that reaches the goal on its last permitted step','that trial is counted as a failure',
 'a trial that ends in a terminal state reached the goal',
 '''"$Z" evaluate --policyInputFile p --useEvaluationCache 0 --evaluationMaxStepsPerTrial 1 --simulationTracesToLogPerEpoch 0 -i 40 m.pomdp > log 2>&1 || { cat log; exit 3; }
tail -3 log; ls; cat *.plot | head
grep -i succ log
''',{'m.pomdp':POM.replace('start: 1 0','start: 1 0')+'R: 0 : 0 : * : * 1\n','p':'{\npolicyType => "MaxPlanesLowerBound",\nnumPlanes => 1,\nplanes => [\n{\naction => 0,\nnumEntries => 2,\nentries => [\n0, 10,\n1, 0\n]\n}\n]\n}\n'})
