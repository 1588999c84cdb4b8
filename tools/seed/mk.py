"""mk.py SPEC.py...: create /verif/seeded/<id>/ from a spec file defining
PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], and DEMO_CC or DEMO_PY."""
import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile
H = pathlib.Path(__file__).resolve().parent
OUT = H.parent.parent / "seeded"
for spec in sys.argv[1:]:
    d = runpy.run_path(spec)
    sid = pathlib.Path(spec).stem
    o = OUT / sid
    o.mkdir(parents=True, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        files = sorted({e[0] for e in d["EDITS"]})
        subprocess.run(["git", "init", "-q", t], check=True)
        for f in files:
            src = pathlib.Path("/repo") / f
            dst = pathlib.Path(t) / f
            dst.parent.mkdir(parents=True, exist_ok=True)
            dst.write_text(subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + f], capture_output=True, text=True, check=True).stdout)
        subprocess.run("git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=t, check=True)
        for f, a, b in d["EDITS"]:
            p = pathlib.Path(t) / f
            s = p.read_text()
            assert s.count(a) == 1, (sid, f, s.count(a))
            p.write_text(s.replace(a, b))
        (o / "patch.diff").write_text(subprocess.run(["git", "diff"], cwd=t, capture_output=True, text=True).stdout)
    if "DEMO_CC" in d:
        (o / "demo.cc").write_text(d["DEMO_CC"].lstrip("\n"))
        shutil.copy(H / "cap.hh", o / "cap.hh")
        shutil.copy(H / "demo_cc.sh", o / "demo.sh")
    else:
        (o / "demo.py").write_text(d["DEMO_PY"].lstrip("\n"))
        shutil.copy(H / "demo_py.sh", o / "demo.sh")
    os.chmod(o / "demo.sh", 0o755)
    (o / "meta.json").write_text(json.dumps({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, indent=1) + "\n")
    print("made", sid)
