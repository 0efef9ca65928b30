import json
T="seeded deterministic simulation of the real code with fault injection"
claimed=json.load(open('/verif/tools/claimed.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[];na=[]
for p in props:
    c=claimed.get(p['id'])
    if c is None or 'na' in c:
        na.append(dict(property=p['id'],reason=(c or {}).get('na','no check built yet')))
        continue
    checks.append(dict(property=p['id'],quick_cmd=f"./check.sh {p['id']} quick",thorough_cmd=f"./check.sh {p['id']} thorough",
      evidence_file=f"evidence/{p['id']}.json",technique=T+": "+c['technique'],level="exploration",level_note=c['note']))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: each check rewrites a scratch copy of /repo's working tree so that goroutines, channels, locks, time, map order, files, processes and the network go to the simulator in sim/rt (see DESIGN.md). ./replay.sh FILE replays a violation.")
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write("\n")
print(len(checks),len(na))
