# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
rows=["| bug | property | what it breaks | what it needs | caught by |","|---|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    d=json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |"%(f.split("/")[1],d["property"],d["what_it_breaks"],d["needs"],d.get("caught_by",d["property"])))
s=open("DESIGN.md").read()
a,b="<!-- table: tools/mktable.py -->\n","<!-- end -->"
i,j=s.index(a)+len(a),s.index(b)
open("DESIGN.md","w").write(s[:i]+"\n"+"\n".join(rows)+"\n\n"+s[j:])
