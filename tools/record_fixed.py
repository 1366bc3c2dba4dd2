import json,subprocess
P={'edf723d':'C08','5a2f0e1':'C11','6e356d7':'C10','1b227c6':'C02','12730d6':'C02','ef595fb':'C02','b3e46ac':'C05','d8777d3':'C02','718c6b9':'C10','1f73849':'C02','f944934':'C02','6ce3aed':'C04','3dec357':'C02','da3a15e':'C02','88fdeda':'C02','e0e8244':'C02','d6dc274':'C02','6f049fd':'C01','bfaaae0':'C10','f9687c6':'C10','0c44c88':'C10','04326eb':'C05','4f9ac45':'C10','ee6c183':'C10','bf38f98':'C08','29a789c':'C08','aa6b1f0':'C08','eb1976e':'C10','45c1e7f':'C10'}
import sys
ex=json.load(open('/verif/known_findings.json'))
for a in sys.argv[1:]:
    k,v=a.split('='); P[k]=v
out=[]
have={l.split()[2]:l for l in ex['fixed']}
for l in subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(' ',1)
    if s.startswith('fix:'):
        pid=P.get(h) or (have.get(h,'property=??').split()[1].split('=')[1])
        out.append(f"fixed: property={pid} {h} {s[5:]}")
ex['fixed']=out
with open('/verif/known_findings.json','w') as f:
    f.write('{"findings": [\n'+',\n'.join(json.dumps(x) for x in ex['findings'])+'\n], "fixed": [\n'+',\n'.join(json.dumps(x) for x in out)+'\n]}\n')
