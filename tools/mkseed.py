import os, subprocess, shutil, tempfile, json, sys
def seed(sid, prop, edits, demo, needs, breaks):
    d=f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
    tmp=tempfile.mkdtemp(prefix="mk.",dir="/tmp"); c=tmp+"/repo"
    subprocess.run(["git","clone","-q","/repo",c],check=True)
    for f,o,n in edits:
        p=f"{c}/instancespace/{f}"; s=open(p).read()
        assert s.count(o)>=1, (sid,f,"not found",o)
        assert s.count(o)==1, (sid,f,"ambiguous",s.count(o),o)
        open(p,"w").write(s.replace(o,n))
    df=subprocess.run(["git","-C",c,"diff"],capture_output=True,text=True).stdout
    assert df
    open(d+"/patch.diff","w").write(df)
    open(d+"/demo.py","w").write(demo)
    open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(tmp)
