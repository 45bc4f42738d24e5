import json,os
V=__file__.rsplit("/scripts/",1)[0]
import importlib.util
t=open(V+"/scripts/design_head.md").read()
src=open(V+"/scripts/manifest.py").read()
ns={"__file__":V+"/scripts/manifest.py"}
exec(src.split("checks = []")[0],ns)
t+="## Property by property\n\nMethod for all: contracts discharged by Verus on the current source; oracle: the specification in `contracts/`; bounds: none\n(the searches are bounded and never counted); cost: as above.\n\n"
why=json.load(open(V+"/scripts/why.json"))
for p,n in ns["NOTE"].items():
    t+="* **%s**%s. %s %s\n"%(p," (not claimed: %s)"%ns["NA"][p] if p in ns["NA"] else "",n,why.get(p,""))
t+="\n"+open(V+"/scripts/design_tail.md").read()
open(V+"/DESIGN.md","w").write(t)
