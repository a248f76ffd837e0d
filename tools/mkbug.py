"""mk.py: create /verif/seeded/<id> from spec: python edits"""
import sys, os, subprocess, json, shutil
def bug(id, prop, file, old, new, needs, breaks, demo, count=1):
    B=f"/verif/seeded/{id}"
    os.makedirs(B, exist_ok=True)
    p="/repo/"+file
    edits = [(file,old,new)] if isinstance(file,str) and isinstance(old,str) else old
    touched=set()
    for f,o,n in edits:
        s=open("/repo/"+f).read()
        assert s.count(o)==count, (id, f, s.count(o))
        open("/repo/"+f,"w").write(s.replace(o,n)); touched.add(f)
    d=subprocess.check_output(["git","-C","/repo","diff"],text=True)
    subprocess.check_call(["git","-C","/repo","checkout","-q","--","."])
    open(B+"/patch.diff","w").write(d)
    open(B+"/demo.py","w").write(HEAD+demo)
    open(B+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(B+"/meta.json","w"),indent=1)
HEAD='''from amaranth import *
from amaranth.sim import Simulator, Settle

def run(dut, *procs, domain="sync", extra=()):
    sim = Simulator(dut)
    sim.add_clock(1e-6, domain=domain)
    for p in procs:
        sim.add_sync_process(p, domain=domain)
    sim.run()

def check(cond, text):
    if not cond:
        print("FAIL:", text)
        raise SystemExit(1)

'''
