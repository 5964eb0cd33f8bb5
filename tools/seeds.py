#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seeds/*.py (dicts in SEEDS): patch.diff is generated
from textual edits in a scratch copy of /repo.   seeds.py [ID...]"""
import glob, json, os, shutil, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
SEEDS = {}
for f in sorted(glob.glob(os.path.join(here, "seeds", "*.py"))):
    exec(open(f).read())
for id, s in SEEDS.items():
    if len(sys.argv) > 1 and id not in sys.argv[1:]:
        continue
    w = "/tmp/seedgen"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("REPO", "/repo"), w], check=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(id, "edit matches", t.count(old), "times in", f)
            sys.exit(1)
        open(p, "w").write(t.replace(old, new))
    d = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    out = os.path.join(here, "..", "seeded", id)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(os.path.join(out, "patch.diff"), "w").write(d)
    tpl = "demo_disk" if s.get("disk") else "demo"
    for f in os.listdir(os.path.join(here, tpl)):
        shutil.copy(os.path.join(here, tpl, f), os.path.join(out, f))
    if s.get("nosim"):
        os.remove(os.path.join(out, "sim.rs"))
    if s.get("disk"):
        shutil.copytree(os.path.join(here, "..", "harness", "rocksdb"), os.path.join(out, "rocksdb"), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    if s.get("features"):
        t = open(os.path.join(out, "demo.sh")).read()
        open(os.path.join(out, "demo.sh"), "w").write(t.replace("--offline -q", "--offline -q --features " + s["features"]))
    open(os.path.join(out, "main.rs"), "w").write(("" if s.get("disk") or s.get("nosim") else "mod sim;\n#[allow(unused_imports)]\nuse sim::*;\n") + s["main"].lstrip("\n"))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
    print("wrote", id)
