#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
ids=[p['id'] for p in props]
src=open(root+'/harness/checks/src/checks.rs').read()
m=re.search(r'const HIST: &\[&str\] = &\[(.*?)\];',src,re.S)
hist=set(re.findall(r'"(\w+)"',m.group(1)))
m=re.search(r'const OTHER: &\[&str\] = &\[(.*?)\];',src,re.S)
other=set(re.findall(r'"(\w+)"',m.group(1))) if m else set()
m=re.search(r'const SIGN: &\[&str\] = &\[(.*?)\];',src,re.S)
other|=set(re.findall(r'"(\w+)"',m.group(1))) if m else set()
SDK={'R06','R07','R08','R09'}
other|=SDK
NA={}
TECH={
 'R01':'sanitizers: AddressSanitizer (account and instruction bytes fenced) with checked unsafe preconditions, over mutated transactions and hostile stored bytes',
 'R05':'runtime monitoring: encode/decode round trips against an independent layout oracle',
 'C02':'runtime monitoring: round-trip oracle over generated instruction lists',
 'R06':'runtime monitoring: instructions built by the SDK executed on the real program against the reference model',
 'R07':'runtime monitoring: what the SDK reports of stored wallets against an independent reader and permission table',
 'R08':'runtime monitoring: histories of the SDK wallet object on a simulated cluster against the reference model, with an independent reader of the stored state',
 'R09':'runtime monitoring: command lines and dialogues run through the real CLI against a simulated cluster and the reference model',
 'R04':'runtime monitoring: client-built instructions executed on the real program with an effect oracle',
}
DEF='runtime monitoring: lockstep reference model over recorded histories of the real program'
NOTE=('The unmodified program code of /repo runs natively on a simulated chain (accounts, signer/writable and rent rules, CPI, '
 'precompiles, sysvars). A monitor compares every outcome and every account byte with an independent model. Assurance: nothing '
 'violated the property in the workloads of this run (directed-random, seeded); trusted: the runtime model and the stub '
 'system/token/stake programs.')
checks=[]
for i in ids:
    if i in hist|other:
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
            evidence_file=f'evidence/{i}.json',technique=TECH.get(i,DEF),level='exploration',level_note=NOTE))
na=[dict(property=i,reason=NA.get(i,'check not built yet')) for i in ids if i not in hist|other]
json.dump(dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,
  notes='see DESIGN.md; no hooks are needed in /repo, all commits there are fixes'),open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
