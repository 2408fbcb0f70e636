#!/usr/bin/env python3
"""gen_bugs.py [ids]: writes seeded/<id>/ from bugs.py (patches against /repo's HEAD)."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from bugs import B
out = here.parent / "seeded"
ids = sys.argv[1:] or list(B)
tmp = tempfile.mkdtemp()
subprocess.check_call(["git", "clone", "-q", "/repo", tmp + "/r"])
r = pathlib.Path(tmp) / "r"
for i in ids:
    b = B[i]
    for f, old, new in b["edits"]:
        s = (r / f).read_text()
        if s.count(old) != 1:
            sys.exit(f"{i}: {s.count(old)} matches in {f}: {old!r}")
        (r / f).write_text(s.replace(old, new))
    d = out / i
    shutil.rmtree(d, ignore_errors=True)
    (d / "demo").mkdir(parents=True)
    (d / "patch.diff").write_bytes(subprocess.check_output(["git", "diff"], cwd=r))
    subprocess.check_call(["git", "checkout", "-q", "--", "."], cwd=r)
    (d / "meta.json").write_text(json.dumps({k: b[k] for k in ("property", "needs", "what_it_breaks")}, indent=1) + "\n")
    for n in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(here / "demo" / n, d / "demo" / n)
    (d / "demo/src").mkdir()
    shutil.copy(here / "demo/src/lib.rs", d / "demo/src/lib.rs")
    (d / "demo/src/main.rs").write_text(b["main"])
    for n, t in b["extra"].items():
        (d / n).write_text(t)
    sh = (here / "demo/demo.sh").read_text()
    if b["sh"]:
        sh = sh[:sh.index("timeout 200")] + b["sh"].lstrip("\n")
    (d / "demo.sh").write_text(sh)
    os.chmod(d / "demo.sh", 0o755)
shutil.rmtree(tmp)
