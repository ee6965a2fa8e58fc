#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | caught by | needs | breaks |","|---|---|---|---|"]
for d in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(d)); n=os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s |"%(n,m["property"]+m.get("also",""),m["needs"].replace("|","/"),m["what_it_breaks"].replace("|","/")))
f=here+"/DESIGN.md"; s=open(f).read()
s=re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)",lambda x:x.group(1)+"\n".join(rows)+"\n"+x.group(2),s,flags=re.S)
open(f,"w").write(s); print(len(rows)-2)
