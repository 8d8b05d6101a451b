#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in defs*.py beside it: mkseeds.py [id ...]"""
import json, os, pathlib, shutil, subprocess, sys, importlib, textwrap

HERE = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(HERE)); sys.dont_write_bytecode = True
OUT = HERE.parent.parent / "seeded"
SEEDS = []
for f in sorted(HERE.glob("defs*.py")):
    SEEDS += importlib.import_module(f.stem).SEEDS
names = [s["id"] for s in SEEDS]
assert len(set(names)) == len(names)
for s in SEEDS:
    if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]:
        continue
    tmp = pathlib.Path("/tmp/mkseed")
    shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", str(tmp)], check=True)
    for fn, edits in s["edits"].items():
        p = tmp / "cocotbext/axi" / fn
        t = p.read_text()
        for e in edits:
            old, new, which = (*e, None)[:3]
            n = t.count(old)
            assert n == 1 if which is None else n > which, (s["id"], fn, n, old)
            if which is None:
                t = t.replace(old, new)
            else:
                i = -1
                for _ in range(which + 1):
                    i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
        p.write_text(t)
        compile(t, fn, "exec")
    d = OUT / s["id"]
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    diff = subprocess.run(["git", "-C", str(tmp), "diff"], capture_output=True, text=True, check=True).stdout
    assert diff
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
    shutil.copy(HERE / "demo.sh", d / "demo.sh")
    (d / "demo.sh").chmod(0o755)
    body = textwrap.dedent(s["demo"]).strip() + "\n"
    (d / "demo.py").write_text(body)
    if "import kit" in body:
        shutil.copy(HERE / "kit.py", d / "kit.py")
    shutil.rmtree(tmp)
    print(s["id"], "written")
