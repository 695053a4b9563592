import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append((os.path.basename(os.path.dirname(d)),m))
out=["# Planted changes and what catches them","",
"Every folder of `seeded/` holds a change that breaks one property while the repository still builds and its tests pass.",
"`quick` of the named property reports each of them (regenerate with `tools/plant.py --verify`).","",
"| change | property | needs | what it breaks |","|---|---|---|---|"]
for n,m in rows: out.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
tail=open('/verif/tools/seeded_notes.md').read() if os.path.exists('/verif/tools/seeded_notes.md') else ''
open('/verif/SEEDED.md','w').write("\n".join(out)+"\n\n"+tail)
