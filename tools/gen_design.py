import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes=json.load(open(V+"/tools/caught.json"))
out=open(V+"/tools/design_head.md").read()+open(V+"/tools/design_tail.md").read()
out+="| bug | needs | caught by | note |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V+"/seeded")):
    m=json.load(open(f"{V}/seeded/{d}/meta.json"))
    n=notes.get(d,{})
    out+=f"| {d} | {m['needs']} | {n.get('by',m['property'])} | {n.get('note','')} |\n"
open(V+"/DESIGN.md","w").write(out)
