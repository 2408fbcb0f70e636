#!/usr/bin/env python3
"""Mutation campaign: mutate.py gen OUT.json | run OUT.json RESULTS.jsonl WORKERS [START STEP]
Scratch copies of /repo and /verif live under /dev/shm/mw<i> and are removed at the end."""
import json, os, pathlib, random, re, shutil, subprocess, sys, threading, queue, time

REPO = pathlib.Path("/repo")
VERIF = pathlib.Path("/verif")
FILES = ["src/builder.rs", "src/dir_reader.rs", "src/fst.rs", "src/lib.rs", "src/new_reader.rs", "src/reader_writer.rs",
         "src/structs.rs", "src/window.rs", "disc-riider-py/src/lib.rs", "iso-tool/src/main.rs"]
ORDER = {
    "src/builder.rs": "C02 C05 C03 C06 C16 C13 C14 C01 C24 C23 C15 C04 C12",
    "src/dir_reader.rs": "C01 C23 C03 C15 C16 C12",
    "src/fst.rs": "C10 C11 C12 C02 C01 C22 C07",
    "src/lib.rs": "C07 C21 C11 C04 C05 C22",
    "src/new_reader.rs": "C07 C03 C22 C08 C12 C24 C20",
    "src/reader_writer.rs": "C04 C02 C13 C01 C14 C05 C06",
    "src/structs.rs": "C21 C22 C03 C12 C05 C20",
    "src/window.rs": "C09 C08 C07 C13 C14",
    "disc-riider-py/src/lib.rs": "C17 C18 C19 C15",
    "iso-tool/src/main.rs": "C20",
}
ALL = [f"C{i:02d}" for i in range(1, 25)]
DEAD = {  # functions nothing reachable uses
    "src/reader_writer.rs": ["fn create_readonly", "fn read_into_vec", "fn decrypt_verify_group", "fn read(", "fn get_decrypted_block_data"],
    "disc-riider-py/src/lib.rs": ["fn test_print", "fn parse_section"],
}


def mask(src):
    """blank out comments and string contents, keep positions"""
    out = list(src)
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            for k in range(i, j): out[k] = " "
            i = j
        elif src.startswith("/*", i):
            j = src.find("*/", i) + 2
            for k in range(i, j): out[k] = " "
            i = j
        elif c == '"':
            j = i + 1
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            for k in range(i + 1, j): out[k] = "_"
            i = j + 1
        else:
            i += 1
    return "".join(out)


def dead_ranges(f, m):
    r = []
    t = m.find("#[cfg(test)]")
    if t >= 0:
        r.append((t, len(m)))
    for name in DEAD.get(f, []):
        for x in re.finditer(re.escape(name), m):
            b = m.find("{", x.start())
            d = 0
            for k in range(b, len(m)):
                d += (m[k] == "{") - (m[k] == "}")
                if d == 0:
                    break
            r.append((x.start(), k))
    for x in re.finditer(r"^(use |pub use |mod |pub mod )", m, re.M):
        r.append((x.start(), m.find(";", x.start())))
    return r


OPS = [(r"==", ["!="]), (r"!=(?!=)", ["=="]), (r"(?<![<=\-])<=(?!=)", ["<"]), (r"(?<![>=])>=(?!=)", [">"]),
       (r"(?<= )<(?= )", ["<="]), (r"(?<= )>(?= )", [">="]), (r"&&", ["||"]), (r"\|\|(?= )", ["&&"]),
       (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"(?<= )\*(?= )", ["/", "+"]), (r"(?<= )/(?= )", ["*"]),
       (r"(?<= )%(?= )", ["/"]), (r"<<(?= )", [">>"]), (r">>(?= )", ["<<"]), (r"\+=", ["-=", "="]), (r"-=", ["+="]),
       (r"\.min\(", [".max("]), (r"\.max\(", [".min("]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r"\bNone\b(?=[,;)\s])", []), (r"SeekFrom::Start\(", ["SeekFrom::Current(1+0*"]),
       (r"read_exact", ["read"]), (r"write_all", ["write"]), (r"\bcontinue\b", ["break"]), (r"\bbreak\b", ["continue"]),
       (r"Some\((?=length|group)", []), (r"saturating_add", ["wrapping_add"]), (r"\.any\(", [".all("]),
       (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty()==false&&true"]),
       (r"Ordering::Equal", []), (r"eq_ignore_ascii_case", ["eq"]), (r"to_ascii_lowercase", ["clone"]),
       (r"WiiPartType::Data\b", ["WiiPartType::Update"]), (r"WiiPartType::Update\b", ["WiiPartType::Channel"]),
       (r"WiiPartType::Channel\b", ["WiiPartType::Data"]), (r" as u64", [" as u32 as u64"]), (r"\bu64\b", []),
       (r"\.truncate\(true\)", [".truncate(false)"]), (r"(?<=[ (])!(?=[\w(])", [""]),
       (r"\.skip\((\d+)\)", []), (r"\.rev\(\)", [""]), (r"\.filter\([^\n]*\)$", [""])]


def gen():
    out = []
    for f in FILES:
        src = (REPO / f).read_text()
        m = mask(src)
        dead = dead_ranges(f, m)
        isdead = lambda p: any(a <= p < b for a, b in dead)

        def add(a, b, new, kind):
            if isdead(a) or src[a:b] == new:
                return
            out.append(dict(file=f, a=a, b=b, new=new, kind=kind, line=src.count("\n", 0, a) + 1,
                            old=src[a:b], ctx=src[src.rfind("\n", 0, a) + 1:src.find("\n", b)].strip()[:160]))
        for pat, news in OPS:
            for x in re.finditer(pat, m, re.M):
                for nw in news:
                    add(x.start(), x.end(), nw, "op")
        for x in re.finditer(r"(?<![\w.#])(0x[0-9A-Fa-f_]+|\d[\d_]*)(?=(u8|u16|u32|u64|usize|f64)?\b)", m):
            t = x.group(1)
            v = int(t.replace("_", ""), 0)
            line = m[m.rfind("\n", 0, x.start()) + 1:m.find("\n", x.start())]
            if re.match(r"\s*\[0xeb|\s*\[0x63", line):
                continue
            if line.strip().startswith("#[error") or "derive" in line:
                continue
            for nv in {v + 1, v - 1, v * 2} - {v}:
                if nv >= 0:
                    add(x.start(1), x.end(1), hex(nv) if t.startswith("0x") else str(nv), "const")
        # statements
        pos = 0
        for line in m.split("\n"):
            st = line.strip()
            a = pos + (len(line) - len(line.lstrip()))
            b = pos + len(line.rstrip())
            pos += len(line) + 1
            if st.endswith(";") and st.count("(") == st.count(")") and st.count("{") == st.count("}") and st.count("[") == st.count("]") \
                    and not re.match(r"(let |use |pub |return|const |type |mod |\.|\)|\})", st):
                add(a, b, "", "delete")
            if st.endswith("?;") and not re.match(r"(\.|\)|\})", st) and st.count("(") == st.count(")"):
                y = re.match(r"let (mut )?\w+(: [^=]+)? = ", st)
                if not y:
                    s = src[a:b]
                    add(a, b, "let _ = " + s[:-2] + ";", "ignore-error")
            y = re.match(r"((?:\} else )?if )(?!let )(.+)( \{)$", st)
            if y:
                ca, cb = a + y.start(2), a + y.end(2)
                add(ca, cb, "false && (" + src[ca:cb] + ")", "if-false")
                add(ca, cb, "true || (" + src[ca:cb] + ")", "if-true")
    # de-duplicate
    seen, res = set(), []
    for x in out:
        k = (x["file"], x["a"], x["b"], x["new"])
        if k not in seen:
            seen.add(k)
            res.append(x)
    return res


def sh(cmd, cwd, env, timeout):
    try:
        r = subprocess.run(["prlimit", "--as=16000000000"] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout, start_new_session=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", str(cwd)])
        return 124, "timeout"


class Worker:
    def __init__(self, i, full=False):
        self.root = pathlib.Path(f"/dev/shm/mw{i}")
        shutil.rmtree(self.root, ignore_errors=True)
        self.root.mkdir()
        self.repo = self.root / "repo"
        self.ver = self.root / "verif"
        shutil.copytree(REPO, self.repo, ignore=shutil.ignore_patterns("target", ".git"), symlinks=True)
        self.ver.mkdir()
        shutil.copytree(VERIF / "harness", self.ver / "harness")
        shutil.copytree(VERIF / "pylane", self.ver / "pylane")
        shutil.copy(VERIF / "check.py", self.ver)
        t = (self.ver / "harness/Cargo.toml").read_text().replace('"/repo"', f'"{self.repo}"')
        (self.ver / "harness/Cargo.toml").write_text(t)
        self.env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", PYO3_PYTHON="/usr/bin/python3.12",
                        CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true",
                        CARGO_PROFILE_RELEASE_INCREMENTAL="false", CARGO_BUILD_JOBS="3")
        self.target_mon = self.ver / "build/mon"
        self.target_repo = self.ver / "build/repo"

    def build(self, tools):
        rc, o = sh(["cargo", "build", "--release", "--offline", "--target-dir", str(self.target_mon)], self.ver / "harness", self.env, 600)
        if rc:
            return False
        if tools:
            rc, o = sh(["cargo", "build", "--release", "--offline", "-p", "iso-tool", "-p", "disc-riider-py", "--target-dir",
                        str(self.target_repo)], self.repo, self.env, 600)
            if rc:
                return False
        return True

    def tests(self):
        rc, o = sh(["cargo", "test", "--offline", "-p", "disc_riider", "--target-dir", str(self.root / "tt")], self.repo, self.env, 300)
        for l in o.splitlines():
            pass
        return rc == 0

    def check(self, pid, frac, threads):
        """returns 'killed: msg' or None"""
        sc = self.root / "scratch"
        shutil.rmtree(sc, ignore_errors=True)
        sc.mkdir()
        try:
            if pid in ("C17", "C18", "C19"):
                e = dict(self.env, PYLANE_FRACTION=str(frac))
                code = ("import sys,json,pathlib; sys.path.insert(0,%r); import parent; "
                        "print('RES '+json.dumps(parent.run(%r,1,'quick',pathlib.Path(%r),pathlib.Path(%r),pathlib.Path(%r),300,pathlib.Path(%r))))"
                        % (str(self.ver / "pylane"), pid, str(sc), str(self.target_mon / "release/mon"),
                           str(self.target_repo / "release/libdisc_riider_py.so"), str(self.ver / "pylane")))
                rc, o = sh(["python3", "-B", "-c", code], self.ver, e, 900)
                m = re.search(r"RES (.*)", o)
                if not m:
                    return "killed? " + o[-300:]
                r = json.loads(m.group(1))
                return None if r["verdict"] == "held" else f"{r['verdict']}: {r.get('message', '')[:300]}"
            e = dict(self.env, MON_ISO_TOOL=str(self.target_repo / "release/iso-tool"))
            cmd = [str(self.target_mon / "release/mon"), "run", pid, "--seed", "1", "--tier", "quick", "--scratch", str(sc),
                   "--budget", "300", "--hang", "60", "--threads", str(threads)]
            if frac < 1:
                cmd += ["--cases", str(max(30, int(QUICK[pid] * frac)))]
            rc, o = sh(cmd, self.ver, e, 900)
            if rc == 0:
                return None
            m = re.search(r"RESULT (.*)", o)
            if m:
                try:
                    r = json.loads(m.group(1))
                    return f"{r['verdict']}: case {r.get('case')} {r.get('message', '')[:300]}"
                except Exception:
                    pass
            return f"rc={rc} {o[-200:]}"
        finally:
            shutil.rmtree(sc, ignore_errors=True)

    def mutant(self, mu, matrix=False):
        f = self.repo / mu["file"]
        orig = (REPO / mu["file"]).read_text()
        f.write_text(orig[:mu["a"]] + mu["new"] + orig[mu["b"]:])
        try:
            tools = mu["file"].startswith(("disc-riider-py", "iso-tool"))
            if not self.build(tools):
                return dict(status="nobuild")
            order = ORDER[mu["file"]].split()
            kills = {}
            if not matrix:
                for frac in (0.05, 0.5):
                    for pid in order:
                        if pid in ("C17", "C18", "C19", "C20", "C15") and not tools and not (pid == "C15"):
                            continue
                        if frac == 0.5 and pid == order[0] and not tools and not self.tests():
                            return dict(status="tests")
                        k = self.check(pid, frac, 3)
                        if k:
                            return dict(status="killed", by=pid, frac=frac, msg=k)
            if not matrix:
                return dict(status="SURVIVED")
            if not tools:
                self.build(True)
            lst = [p for p in order if p not in ("C17", "C18", "C19", "C20")] + [p for p in ALL if p not in order]
            lst += [p for p in order if p in ("C17", "C18", "C19", "C20")]
            if tools:
                lst = order
            for pid in lst:
                k = self.check(pid, 1, 3)
                if k:
                    if not matrix:
                        return dict(status="killed", by=pid, frac=1, msg=k)
                    kills[pid] = k
            if matrix:
                return dict(status="matrix", kills=kills)
            return dict(status="SURVIVED")
        finally:
            f.write_text(orig)


QUICK = {}


def main():
    if sys.argv[1] == "gen":
        ms = gen()
        json.dump(ms, open(sys.argv[2], "w"))
        print(len(ms))
        from collections import Counter
        print(Counter((m["file"], m["kind"]) for m in ms))
        return
    ms = json.load(open(sys.argv[2]))
    res = pathlib.Path(sys.argv[3])
    nw = int(sys.argv[4])
    matrix = len(sys.argv) > 5 and sys.argv[5] == "matrix"
    done = set()
    if res.exists():
        done = {json.loads(l)["i"] for l in res.read_text().splitlines()}
    o = subprocess.run([str(VERIF / "build/mon/release/mon"), "list"], stdout=subprocess.PIPE, text=True).stdout
    for l in o.splitlines():
        a = l.split()
        QUICK[a[0]] = int(a[1].split("=")[1])
    idx = [i for i in range(len(ms)) if i not in done]
    random.Random(7).shuffle(idx)
    q = queue.Queue()
    for i in idx:
        q.put(i)
    lock = threading.Lock()

    def work(w):
        W = Worker(w)
        if not W.build(True):
            print("worker build failed")
            return
        W.tests()
        while not os.path.exists("/dev/shm/mw.stop"):
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            t = time.time()
            try:
                r = W.mutant(ms[i], matrix)
            except Exception as e:
                r = dict(status="error", msg=repr(e))
            r.update(i=i, t=round(time.time() - t, 1), file=ms[i]["file"], line=ms[i]["line"], kind=ms[i]["kind"], old=ms[i]["old"][:80],
                     new=ms[i]["new"][:80], ctx=ms[i]["ctx"])
            with lock:
                with open(res, "a") as fh:
                    fh.write(json.dumps(r) + "\n")
        shutil.rmtree(W.root, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(nw)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
