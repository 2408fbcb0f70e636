#!/usr/bin/env python3
"""probe.py PROBES.py [names...]: applies each probe's edits in a scratch copy and runs the named properties' quick checks there.
PROBES.py defines P = [(name, "C01 C02", [(file, old, new), ...]), ...]"""
import os, sys, runpy, pathlib
here = pathlib.Path(__file__).resolve().parent
sys.argv, args = ["mutate", "none"], sys.argv[1:]
src = (here / "mutate.py").read_text().replace("\nmain()\n", "\n")
ns = {"__name__": "mutate"}
exec(compile(src, "mutate.py", "exec"), ns)
import subprocess, time
o = subprocess.run([str(ns["VERIF"] / "build/mon/release/mon"), "list"], stdout=subprocess.PIPE, text=True).stdout
for l in o.splitlines():
    a = l.split(); ns["QUICK"][a[0]] = int(a[1].split("=")[1])
P = runpy.run_path(args[0])["P"]
names = args[1:]
tag = os.environ.get("TAG", "p")
W = ns["Worker"](tag)
assert W.build(True), "clean build"
for name, props, edits in P:
    if names and name not in names:
        continue
    t = time.time()
    texts = {}
    bad = None
    for f, old, new in edits:
        s = texts.get(f) or (ns["REPO"] / f).read_text()
        if s.count(old) != 1:
            bad = f"{s.count(old)} matches of {old!r} in {f}"
            break
        texts[f] = s.replace(old, new)
    if bad:
        print(name, "BAD EDIT", bad, flush=True)
        continue
    for f, s in texts.items():
        (W.repo / f).write_text(s)
    tools = bool({"C17", "C18", "C19", "C20"} & set(props.split()))
    if not W.build(tools):
        print(name, "NOBUILD", flush=True)
        rc, o = ns["sh"](["cargo", "build", "--release", "--offline", "--target-dir", str(W.target_mon)], W.ver / "harness", W.env, 600)
        print(o[-1500:])
        if tools:
            rc, o = ns["sh"](["cargo", "build", "--release", "--offline", "-p", "iso-tool", "-p", "disc-riider-py", "--target-dir", str(W.target_repo)], W.repo, W.env, 600)
            print(o[-1500:])
    else:
        tst = W.tests()
        for p in props.split():
            t1 = time.time()
            k = W.check(p, 1, int(os.environ.get("T", "4")))
            print(f"{'caught' if k else 'MISSED'} {name} {p} tests={'ok' if tst else 'FAIL'} {time.time()-t1:.0f}s {(k or '')[:230]!r}", flush=True)
    for f in texts:
        (W.repo / f).write_text((ns["REPO"] / f).read_text())
ns["shutil"].rmtree(W.root, ignore_errors=True)
