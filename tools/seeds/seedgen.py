"""usage: seedgen.py FILE.py  -- FILE defines SEEDS list of dicts id prop edits[(file,old,new)] needs breaks demo(py)"""
import sys,os,json,subprocess,runpy
S=runpy.run_path(sys.argv[1])["SEEDS"]
only=set(sys.argv[2:])
for s in S:
    if only and s["id"] not in only: continue
    d="/verif/seeded/"+s["id"]; os.makedirs(d,exist_ok=True)
    for f,o,n in s["edits"]:
        p="/repo/"+f; t=open(p).read()
        assert t.count(o)==1,(s["id"],f,t.count(o))
        open(p,"w").write(t.replace(o,n))
    diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    subprocess.run(["git","-C","/repo","checkout","-q","--","."],check=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.py","w").write(s["demo"])
    open(d+"/demo.sh","w").write('#!/bin/bash\n# Exits 0 when the property holds on this demonstration.\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec timeout 250 /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    print(s["id"],len(diff))
