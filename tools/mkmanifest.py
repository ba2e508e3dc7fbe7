#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that the harness has parts for."""
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
built=set()
for f in glob.glob(root+'/harness/c[0-9]*.go'):
    built|=set(re.findall(r'register(?:\[[^\]]*\])?\(\s*"(C\d\d)"',open(f).read()))
NOTES=json.load(open(root+'/tools/notes.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i not in built or i not in NOTES:
        na.append(dict(property=i,reason='check under construction')); continue
    checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',
      technique=NOTES[i][0],level='exploration',level_note=NOTES[i][1]))
m=dict(version=1,setup_cmd="bash -c '. ./build.sh'",checks=checks,not_applicable=na,
  notes='No hooks: the harness (module /verif/harness, built against /repo by a replace directive) uses only the exported API, raw TCP peers and a reference codec of its own. Genuine defects that were repaired are listed in known-findings.txt.')
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1); open(root+'/MANIFEST.json','a').write('\n')
print(len(checks),'checks,',len(na),'not claimed')
