#!/usr/bin/env python3
# Puts DESIGN.md together.
import json,os,re,glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes={}; NA={}
exec(open(root+"/tools/notes.py").read())
out=[open(root+"/tools/design/head.md").read()]
for l in open(root+"/properties.jsonl"):
    d=json.loads(l); i=d["id"]
    out.append("### %s %s\n"%(i,d["title"]))
    out.append(notes.get(i,NA.get(i,""))+"\n")
    b,a,fs=[],[],[]
    for f in sorted(glob.glob(root+"/harness/%s/*.go"%i.lower())):
        s=open(f).read()
        b+=re.findall(r"^// bound: (.*)$",s,re.M); a+=re.findall(r"^// assume: (.*)$",s,re.M)
        fs+=re.findall(r"^func (Verif\w+)\(\)",s,re.M)
    out.append("* Entry points: "+", ".join(fs)+".")
    for x in b: out.append("* "+("Outside of the bounds: "+x[8:] if x.startswith("beyond: ") else "Bounds: "+x)+".")
    for x in a: out.append("* Assumes: "+x+".")
    out.append("")
tail=open(root+"/tools/design/tail.md").read()
kf=json.load(open(root+"/known_findings.json"))
tail=tail.replace("@@FINDINGS@@","\n".join("* %s (`%s`): %s."%(x["property"],x["commit"],x["what"]) for x in kf))
sd=[]
for f in sorted(glob.glob(root+"/seeded/*/meta.json")):
    m=json.load(open(f)); sd.append("* `%s` (%s): %s. Needs: %s. Caught by %s."%(os.path.basename(os.path.dirname(f)),m["property"],m["what_it_breaks"].rstrip("."),m["needs"].rstrip("."),m["property"]))
tail=tail.replace("@@SEEDS@@","\n".join(sd))
import runpy
n=0
for k in "123567":
    n+=len(runpy.run_path(root+"/tools/mutants/m%s.py"%k)["M"])
tail=tail.replace("@@MUTANTS@@",str(n))
out.append(tail)
open(root+"/DESIGN.md","w").write("\n".join(out))
