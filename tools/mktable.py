# prints the table of planted bugs of DESIGN.md (between the markers) from seeded/*/meta.json
import json,glob,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=["| planted bug | caught by | what it needs |","|---|---|---|"]
for m in sorted(glob.glob(here+"/seeded/*/meta.json")):
    d=json.load(open(m)); rows.append("| %s | %s | %s |"%(os.path.basename(os.path.dirname(m)),d["property"],d["needs"]))
p=here+"/DESIGN.md"; t=open(p).read()
t=re.sub(r"<!-- seeded -->.*<!-- /seeded -->","<!-- seeded -->\n\n"+"\n".join(rows).replace("\\","\\\\")+"\n\n<!-- /seeded -->",t,flags=re.S)
open(p,"w").write(t)
