"""Python lane: runs worker.py (which imports the module under test) as an unprivileged user, in
parallel batches, and merges what the workers observed."""
import json, os, pathlib, shutil, subprocess, sys, threading, time

PY = "/usr/bin/python3.12"
COUNT = {"C17": (1900, 48000), "C18": (6000, 150000), "C19": (2400, 60000)}
BATCH = {"C17": 8, "C18": 20, "C19": 8}
NEED = {
    "C17": {"extractions": 300, "files compared": 2000, "older files replaced": 100, "refusals": 600, "rebuilds": 60,
            "filtered sections": 40, "several sections": 40,
            "cut images": 50, "limited destinations": 50, "overlong files": 50, "attempts refused": 50, "obstacles": 50, "rebuilds refused": 50, "rebuilds compared": 50, "extractions during another one": 20, "extractions after a failed one": 50},
    "C18": {"extractions": 600, "escaping images": 250, "escapes refused": 250, "harmless images": 50},
    "C19": {"filters": 600, "callback calls": 3000, "files removed": 800, "callbacks that raised": 200, "files compared": 1500,
            "composed filters": 150},
}
RULE = {
    "C17": "a case is one reference-made image with known contents, a random selection of sections in random letter case, optionally "
           "filtered, extracted by the Python module over older files; every file written is compared with the model by length and "
           "SHA-1, refused calls are provoked, DATA is rebuilt and extracted again, and a cut image, a destination that refuses long files or "
           "holds an obstacle, or a file longer than the partition must raise (or nothing is missing); distinct by image and choices",
    "C18": "a case is one image whose file table holds hostile names at a random place; everything outside the destination is "
           "snapshotted before and after extraction by an unprivileged process; distinct by names",
    "C19": "a case is one sequence of filters with recorded callbacks (true and false values of many kinds, raising, raising __bool__) "
           "on the sections of one image followed by extraction; distinct by image and callback decisions",
}
NOBODY = 65534


def drop_ok():
    try:
        r = subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[])
        return r.returncode == 0
    except Exception:
        return False


def run(pid, seed, tier, scratch, mon, so, budget, here):
    drop = os.getuid() == 0 and drop_ok()
    if pid == "C18" and os.getuid() == 0 and not drop:
        return dict(verdict="error", message="cannot run the extraction as an unprivileged user", case=-1)
    os.chmod(scratch, 0o755)
    mod = scratch / "mod"
    mod.mkdir()
    shutil.copy(so, mod / "disc_riider_py.so")
    shutil.copy(mon, mod / "mon")
    shutil.copy(here / "worker.py", mod / "worker.py")
    for p in [mod, *mod.iterdir()]:
        os.chmod(p, 0o755)
    total = COUNT[pid][tier == "thorough"]
    per = BATCH[pid]
    todo = list(range(0, total, per))
    todo.reverse()
    lock = threading.Lock()
    state = dict(counts={}, distinct=set(), samples=[], done=0, bad=None, err=None)
    deadline = time.time() + budget

    def worker(work, first, n, timeout):
        cmd = [PY, "-B", str(mod / "worker.py"), pid, str(seed), tier, str(first), str(n), str(work)]
        env = {"PATH": "/usr/bin:/bin", "HOME": str(work), "PYTHONPATH": str(mod), "LANG": "C.UTF-8", "PYTHONHASHSEED": "0"}
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if drop else {}
        try:
            return subprocess.run(cmd, env=env, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                  timeout=timeout, **kw)
        except subprocess.TimeoutExpired:
            return None

    def fresh(name):
        w = scratch / name
        shutil.rmtree(w, ignore_errors=True)
        w.mkdir()
        if drop:
            os.chown(w, NOBODY, NOBODY)
        return w

    def lane(k):
        while True:
            with lock:
                if not todo or state["bad"] or state["err"] or time.time() > deadline:
                    return
                first = todo.pop()
            n = min(per, total - first)
            w = fresh(f"w{k}")
            r = worker(w, first, n, 300)
            res = None
            if r is not None:
                for l in r.stdout.splitlines():
                    if l.startswith("WORKER "):
                        res = json.loads(l[7:])
            if res is None:
                # died or hung: which case does it alone?
                cur = None
                try:
                    cur = int((w / "current").read_text())
                except Exception:
                    pass
                msg = "timeout" if r is None else f"exit {r.returncode}: {r.stderr[-500:]}"
                bad = None
                if cur is not None:
                    r2 = worker(fresh(f"w{k}"), cur, 1, 120)
                    if r2 is None:
                        bad = f"the extraction did not end within 120 s"
                    elif r2.returncode < 0:
                        bad = f"the process died with signal {-r2.returncode}: {r2.stderr[-500:]}"
                with lock:
                    if bad:
                        state["bad"] = (cur, bad)
                    else:
                        state["err"] = f"worker for cases {first}..{first+n}: {msg}"
                return
            with lock:
                state["done"] += res["done"]
                for a, b in res["counts"].items():
                    state["counts"][a] = state["counts"].get(a, 0) + b
                state["distinct"].update(res["distinct"])
                state["samples"] += res["samples"][: max(0, 6 - len(state["samples"]))]
                if res.get("violation"):
                    v = (res["violation"]["case"], res["violation"]["message"])
                    if state["bad"] is None or v[0] < state["bad"][0]:
                        state["bad"] = v
                if res.get("error"):
                    state["err"] = res["error"]
            shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=lane, args=(k,)) for k in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    out = dict(evaluations=state["done"], planned=total, distinct=len(state["distinct"]), rule=RULE[pid], counts=state["counts"],
               samples=state["samples"], case=-1, message="")
    if state["bad"]:
        out.update(verdict="violated", case=state["bad"][0], message=state["bad"][1])
    elif state["err"]:
        out.update(verdict="error", message=state["err"])
    else:
        low = [f"{k}: {state['counts'].get(k, 0)} < {n}" for k, n in NEED[pid].items() if state["counts"].get(k, 0) < n]
        out.update(verdict="inconclusive" if low else "held", message="too little observed: " + ", ".join(low) if low else "")
    return out
