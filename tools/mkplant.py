"""developer tool: mkplant.py ID PROP FILE  <<JSON {old,new,needs,breaks,demo}  (edits a scratch copy, writes seeded/ID)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, needs, breaks, demo):
    subprocess.check_call(["bash", V + "/tools/plant.sh", "new", id])
    W, D = "/tmp/plant/" + id, V + "/seeded/" + id
    for f, old, new in edits:
        p = W + "/" + f
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    os.makedirs(D, exist_ok=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(D + "/meta.json", "w"))
    open(D + "/demo.py", "w").write(demo.lstrip())
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1\n'
                                    'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    # the diff is taken now so that several can be prepared before testing
    open(D + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", W, "diff"], text=True))
