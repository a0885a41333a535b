cd /verif; python3 gen.py; python3-vt - <<'P'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print("valid")
P
python3 - <<'P'
import json,glob,re
rows=["| planted bug | caught by | needs | breaks |","|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); rows.append("| %s | %s | %s | %s |"%(f.split('/')[-2],m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
s=open('/verif/DESIGN.md').read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda _:"<!-- seeds -->\n"+"\n".join(rows)+"\n<!-- /seeds -->",s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
P
