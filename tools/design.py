import json,glob,os,collections
d=collections.OrderedDict()
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    x=json.load(open(m)); d.setdefault(x['property'],[]).append(os.path.basename(os.path.dirname(m)).split("-",1)[1])
rows="\n".join("| %s | %s |"%(p,", ".join(v)) for p,v in sorted(d.items()))
n=sum(map(len,d.values()))
s=open('/verif/DESIGN.md').read()
a=s.index("## Planted bugs"); b=s.index("<!-- end of planted bugs -->")
head=s[a:].split("\n| property |")[0]
import re
head=re.sub(r"\b\d+ bugs are kept",str(n)+" bugs are kept",head)
open('/verif/DESIGN.md','w').write(s[:a]+head+"\n| property | bugs |\n|---|---|\n"+rows+"\n"+s[b:])
