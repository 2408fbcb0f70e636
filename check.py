#!/usr/bin/env python3
"""check.py <ID> | --setup

Builds the monitor (and, where needed, the command line tool and the Python module) from /repo's
working tree, runs the monitored workload of one property and reports:
  exit 0  the property held on everything observed
  exit 1  "VIOLATION property=<ID> replay=<path>"
  exit 2  no verdict (build failure, harness error, too little observed)
Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough)."""
import fcntl, hashlib, json, os, pathlib, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = VERIF / "build"
MON = BUILD / "mon/release/mon"
TOOLS = BUILD / "repo/release"
PY = "/usr/bin/python3.12"
PYLANE = {"C17", "C18", "C19"}
NEEDS_TOOLS = PYLANE | {"C20"}
LEVEL = {"C13": "fault_enumeration", "C14": "fault_enumeration"}
ASSUME = {
    "*": ["the independent reference decoder in harness/monitor/refwii.rs reads the Wii format correctly",
          "the release profile with overflow checks and debug assertions behaves like the shipped one apart from trapping overflows"],
}


# checks that execute several monitored runs per generated case count those as evaluations
EVALS = {"C13": ("faults fired", "noisy builds"), "C14": ("crash states", "failed definitions", "failed destinations"),
         "C20": ("commands run",)}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", PYO3_PYTHON=PY,
             CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true",
             CARGO_PROFILE_RELEASE_INCREMENTAL="false")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


def source_hash():
    h = hashlib.sha256()
    fs = []
    for root, ds, names in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in (".git", "target"))
        fs += [os.path.join(root, n) for n in sorted(names) if n.endswith((".rs", ".toml", ".lock"))]
    for f in fs:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def cargo(args, cwd):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build(tools):
    """(re)build from /repo's current contents; cargo judges freshness by time stamps, we by contents"""
    BUILD.mkdir(exist_ok=True)
    with open(BUILD / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not (REPO / "Cargo.lock").exists():
            src = next((p for p in (pathlib.Path("/opt/vp/Cargo.lock"), VERIF / "harness/repo.Cargo.lock") if p.exists()), None)
            if src:
                shutil.copy(src, REPO / "Cargo.lock")
        jobs = [("mon", ["build", "--release", "--offline", "--target-dir", str(BUILD / "mon")], VERIF / "harness", ["disc_riider"])]
        if tools:
            jobs.append(("repo", ["build", "--release", "--offline", "-p", "iso-tool", "-p", "disc-riider-py",
                                  "--target-dir", str(BUILD / "repo")], REPO, ["disc_riider", "iso-tool", "disc-riider-py"]))
        for name, args, cwd, pk in jobs:
            h = source_hash()
            stamp = BUILD / f"{name}.stamp"
            if (BUILD / name).exists() and (not stamp.exists() or stamp.read_text() != h):
                for p in pk:
                    cargo(["clean", "--release", "--offline", "-p", p, "--target-dir", str(BUILD / name)], cwd)
            if stamp.exists() and stamp.read_text() != h:
                stamp.unlink()
            rc, out = cargo(args, cwd)
            if rc:
                log(out[-6000:])
                log(f"build of {name} failed")
                sys.exit(2)
            stamp.write_text(h)


def clock_shim():
    """library that shifts the clock of a child process; None if it cannot be built"""
    src, out = VERIF / "harness/clock.c", BUILD / "clock.so"
    if not out.exists() or out.stat().st_mtime < src.stat().st_mtime:
        tmp = BUILD / f"clock.{os.getpid()}.so"
        if subprocess.run(["cc", "-shared", "-fPIC", "-O1", "-o", str(tmp), str(src)], stdout=subprocess.DEVNULL,
                          stderr=subprocess.DEVNULL).returncode:
            return None
        os.replace(tmp, out)
    return out


def scratch_dir():
    for base in ("/dev/shm", "/tmp", str(BUILD)):
        try:
            if os.path.isdir(base) and os.access(base, os.W_OK):
                st = os.statvfs(base)
                if st.f_bavail * st.f_frsize > 3 << 30 or base == str(BUILD):
                    return pathlib.Path(tempfile.mkdtemp(prefix="mon-", dir=base))
        except OSError:
            pass
    return pathlib.Path(tempfile.mkdtemp(prefix="mon-"))


def result_line(out):
    for l in out.splitlines():
        if l.startswith("RESULT "):
            return json.loads(l[7:])
    return None


def run_mon(pid, seed, tier, scratch, budget):
    e = env()
    e["MON_ISO_TOOL"] = str(TOOLS / "iso-tool")
    if pid == "C15" and (c := clock_shim()):
        e["MON_CLOCK"] = str(c)
    base = [str(MON), "run", pid, "--seed", str(seed), "--tier", tier, "--scratch", str(scratch), "--budget", str(budget),
            "--hang", "300" if tier == "quick" else "600"]
    r = subprocess.run(base, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if r.stderr:
        log(r.stderr[-2000:])
    one = lambda c: [str(MON), "one", pid, "--seed", str(seed), "--tier", tier, "--scratch", str(scratch / "one"), "--case", str(c)]

    def alone(c, cpu=None):
        lim = (lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))) if cpu else None
        try:
            return subprocess.run(one(c), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                  errors="replace", preexec_fn=lim, timeout=600)
        except subprocess.TimeoutExpired:
            return None

    if r.returncode in (0, 1, 2):
        res = result_line(r.stdout)
        if res:
            return res
        return dict(verdict="error", message="no RESULT line", case=-1)
    if r.returncode == 4:
        m = re.search(r"HANG (\d+)", r.stdout)
        c = int(m.group(1))
        cpu = 200 if tier == "quick" else 500
        a = alone(c, cpu)
        if a is None:
            return dict(verdict="error", message=f"case {c} slow, wall clock exceeded", case=c)
        if a.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
            return dict(verdict="violated", message=f"case {c} did not end within {cpu} s of CPU time", case=c, evaluations=1)
        if a.returncode == 1:
            return dict(verdict="violated", message=a.stdout.strip()[-2000:], case=c, evaluations=1)
        return dict(verdict="error", message=f"case {c} was slow but ended alone", case=c)
    # died: find the case that kills the process on its own
    cases = []
    for j in sorted(scratch.glob("journal-*")):
        t = j.read_text().strip()
        if t:
            cases.append(int(t))
    for c in sorted(cases):
        a = alone(c)
        if a is not None and a.returncode < 0:
            return dict(verdict="violated", case=c, evaluations=1,
                        message=f"the process died with signal {-a.returncode} in case {c}: {a.stderr.strip()[-600:]}")
        if a is not None and a.returncode == 1:
            return dict(verdict="violated", case=c, evaluations=1, message=a.stdout.strip()[-2000:])
    return dict(verdict="error", message=f"monitor ended with {r.returncode}; not reproducible in cases {cases}", case=-1)


def run_py(pid, seed, tier, scratch, budget):
    sys.path.insert(0, str(VERIF / "pylane"))
    sys.dont_write_bytecode = True
    import parent
    return parent.run(pid, seed, tier, scratch, MON, TOOLS / "libdisc_riider_py.so", budget, VERIF / "pylane")


def known_findings(pid):
    """lines `finding: property=<ID> <regular expression on the message>` in known_findings.txt"""
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) (.+)$", l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        build(True)
        return 0
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    build(pid in NEEDS_TOOLS)
    budget = 420 if tier == "quick" else 1500
    scratch = scratch_dir()
    try:
        res = (run_py if pid in PYLANE else run_mon)(pid, seed, tier, scratch, budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    verdict = res.get("verdict", "error")
    if pid in EVALS and res.get("counts"):
        res["counts"]["generated cases"] = res["evaluations"]
        res["evaluations"] = sum(res["counts"].get(k, 0) for k in EVALS[pid])
    ev = dict(property=pid, tier=tier, seed=seed, level=LEVEL.get(pid, "exploration"),
              coverage=dict(evaluations=int(res.get("evaluations", 0)), distinct_nontrivial=int(res.get("distinct", 0)),
                            rule=res.get("rule", ""), samples=res.get("samples", []), observed=res.get("counts", {}),
                            planned=res.get("planned", 0)),
              assumptions=ASSUME["*"] + ASSUME.get(pid, []), wall_s=round(time.time() - t0, 2),
              violations=1 if verdict == "violated" else 0)
    if verdict != "held":
        ev["coverage"]["message"] = res.get("message", "")[:4000]
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    if verdict == "held":
        print(f"{pid}: held; {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct, {ev['wall_s']} s")
        return 0
    if verdict == "violated":
        for rx in known_findings(pid):
            if re.search(rx, res["message"]):
                print(f"KNOWN-FINDING: property={pid} {res['message'][:300]}")
                return 0
        (VERIF / "replay").mkdir(exist_ok=True)
        rp = VERIF / "replay" / f"{pid}-{seed}-{tier}.json"
        lane = "pylane" if pid in PYLANE else "mon"
        cmd = (f"VERIF_SEED={seed} VERIF_TIER={tier} python3 check.py {pid}" if lane == "pylane" else
               f"build/mon/release/mon one {pid} --seed {seed} --tier {tier} --scratch /dev/shm/replay --case {res.get('case')}")
        rp.write_text(json.dumps(dict(property=pid, seed=seed, tier=tier, case=res.get("case"), message=res.get("message"),
                                      replay=cmd), indent=1) + "\n")
        log(f"{pid}: case {res.get('case')}: {res.get('message')}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    log(f"{pid}: {verdict}: {res.get('message')}")
    return 2


sys.exit(main())
