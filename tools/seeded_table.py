import json,glob,os,re
rows=['| planted bug | property | what breaks | needs |','|---|---|---|---|']
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p='/verif/DESIGN.md'; s=open(p).read()
t='<!-- seeded -->\n'+'\n'.join(rows)+'\n<!-- /seeded -->'
if 'SEEDED_TABLE' in s: s=s.replace('SEEDED_TABLE',t)
else: s=re.sub(r'<!-- seeded -->.*?<!-- /seeded -->',lambda m:t,s,flags=re.S)
open(p,'w').write(s)
