# fills the table of planted bugs into DESIGN.md (idempotent)
import json,os,re
rows=["<!-- seeds -->","| bug | property | what it breaks | needs |","|---|---|---|---|"]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
rows.append("<!-- /seeds -->")
t=open('/verif/DESIGN.md').read()
new="\n".join(rows)
t=t.replace("@SEEDS@",new) if "@SEEDS@" in t else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->",lambda m:new,t,flags=re.S)
open('/verif/DESIGN.md','w').write(t)
