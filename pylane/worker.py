"""One batch of Python-lane cases. Runs unprivileged; imports the module under test."""
import hashlib, json, os, pathlib, random, resource, shutil, subprocess, sys

import disc_riider_py

PID, SEED, TIER, FIRST, N, WORK = sys.argv[1], int(sys.argv[2]), sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
MON = os.path.join(os.path.dirname(os.path.abspath(__file__)), "mon")
SECS = ["DATA", "UPDATE", "CHANNEL"]
OUT = dict(done=0, counts={}, distinct=[], samples=[], violation=None, error=None)


class Violation(Exception):
    pass


def add(k, n=1):
    OUT["counts"][k] = OUT["counts"].get(k, 0) + n


def sample(s):
    if len(OUT["samples"]) < 1:
        OUT["samples"].append(s)


def anycase(r, s):
    return "".join(c.upper() if r.random() < 0.5 else c.lower() for c in s)


def gen(case, mode, victim=""):
    d = os.path.join(WORK, "img")
    os.makedirs(d, exist_ok=True)
    subprocess.run([MON, "gen", "--mode", mode, "--out", d, "--seed", str(SEED), "--from", str(case), "--count", "1", "--victim", victim],
                   check=True, stdout=subprocess.DEVNULL)
    iso = os.path.join(d, f"{case}.iso")
    with open(os.path.join(d, f"{case}.json"), encoding="utf-8") as f:
        m = json.load(f)
    return iso, m["sections"]


def sha(p):
    h = hashlib.sha1()
    with open(p, "rb") as f:
        while b := f.read(1 << 20):
            h.update(b)
    return h.hexdigest()


def must(what, f):
    """a call that must succeed; a panic (PanicException) or an exception is a violation"""
    try:
        return f()
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        raise Violation(f"{what}: {type(e).__name__}: {str(e)[:400]}")


def refused(what, f):
    try:
        f()
    except Exception:
        add("refusals")
        return
    except BaseException as e:
        raise Violation(f"{what} ended with {type(e).__name__}: {str(e)[:300]}")
    raise Violation(f"{what} was accepted")


def files_under(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = p
    return out


def model_files(sec):
    """relative path under files/ -> (length, sha1)"""
    return {"/".join(n[0]): (n[1], n[2]) for n in sec["nodes"] if n[1] is not None}


def expect_tree(dest, want, older, label):
    """`want`: relative path -> (length, sha1); exactly these files (besides `older` ones) exist with these contents"""
    have = files_under(dest)
    for rel, (ln, h) in want.items():
        p = have.get(rel)
        if p is None:
            raise Violation(f"{label}: {rel!r} was not written")
        n = os.path.getsize(p)
        if n != ln:
            raise Violation(f"{label}: {rel!r} has {n} bytes instead of {ln}")
        if sha(p) != h:
            raise Violation(f"{label}: {rel!r} has wrong contents ({ln} bytes)")
        add("files compared")
    extra = sorted(set(have) - set(want) - set(older))
    if extra:
        raise Violation(f"{label}: {extra[0]!r} was written but is not part of the selection")


def want_for(sections, chosen, trees):
    w = {}
    for s in chosen:
        for rel, v in sections[s]["sys"].items():
            w[f"{s}/{rel}"] = tuple(v)
        for rel, v in trees[s].items():
            w[f"{s}/files/{rel}"] = v
    return w


def progress_ok(vals, what, content, falls):
    """content: something is transferred, so the end is 100; falls: how often it may start over"""
    if not vals:
        raise Violation(f"{what}: the callback was never called")
    if vals[0] != 0:
        raise Violation(f"{what}: progress starts at {vals[0]!r}")
    for v in vals:
        if not isinstance(v, int) or v < 0 or v > 100:
            raise Violation(f"{what}: progress {v!r}")
    down = sum(b < a for a, b in zip(vals, vals[1:]))
    if down > falls:
        raise Violation(f"{what}: progress goes back {down} times: {vals[:50]}")
    if content and vals[-1] != 100:
        raise Violation(f"{what}: progress ends at {vals[-1]}")
    add("progress values", len(vals))


def icase_clash(paths):
    """two names in one directory equal except for ASCII case (such a tree cannot be rebuilt)"""
    seen = {}
    low = lambda s: "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
    for p in paths:
        c = p.split("/")
        for i in range(1, len(c) + 1):
            k = "/".join(low(x) for x in c[:i])
            v = "/".join(c[:i])
            if seen.setdefault(k, v) != v:
                return True
    return False


def attempt(what, iso, names, sections, trees, r, limit=None):
    """prepares and extracts everything; success means that everything is there"""
    dest = os.path.join(WORK, "attempt")
    r.shuffle(names)
    if limit == "obstacle":
        # one of the files to be written cannot take the data
        limit = None
        lens = want_for(sections, names, trees)
        want = sorted(lens)
        rel = r.choice(want + [w for w in want if "/files/" not in w] * 3)
        p = os.path.join(dest, rel)
        os.makedirs(os.path.dirname(p))
        if r.random() < 0.3 or lens[rel][0] == 0 or not os.path.exists("/dev/full"):
            os.makedirs(os.path.join(p, "inner"))
        else:
            os.symlink("/dev/full", p)
    if limit is not None:
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        ex = disc_riider_py.WiiIsoExtractor(iso)
        for s in names:
            ex.prepare_extract_section(s)
        ex.extract_to(dest, lambda v: None)
        err = None
    except Exception as e:
        err = e
    except BaseException as e:
        raise Violation(f"extracting from/to {what} ended with {type(e).__name__}: {str(e)[:300]}")
    finally:
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    if err is None:
        add("attempts that succeeded")
        expect_tree(dest, want_for(sections, names, trees), (), f"successful extraction from/to {what}")
    else:
        add("attempts refused")
    shutil.rmtree(dest, ignore_errors=True)
    if err is not None and what != "a cut image":
        # the same extractor can be used again
        for s in names:
            try:
                ex.prepare_extract_section(s)
            except Exception:
                pass  # still prepared
        must("extracting after a failed extraction", lambda: ex.extract_to(dest, lambda v: None))
        expect_tree(dest, want_for(sections, names, trees), (), f"extraction after a failed one to {what}")
        add("extractions after a failed one")
        shutil.rmtree(dest, ignore_errors=True)


def c17(case, r):
    iso, sections = gen(case, "extract")
    dest = os.path.join(WORK, f"dest{case}")
    names = list(sections)
    ex = must("opening", lambda: disc_riider_py.WiiIsoExtractor(iso))
    trees = {s: model_files(sections[s]) for s in names}
    rounds = 2 if r.random() < 0.3 else 1
    sig = [case]
    for rnd in range(rounds):
        if rnd:
            dest += "b"
            trees = {s: model_files(sections[s]) for s in names}
        chosen = [s for s in names if r.random() < 0.7] or ([r.choice(names)] if names else [])
        r.shuffle(chosen)
        for s in chosen:
            if r.random() < 0.3:
                refused("the DOL hash of a section that was not prepared", lambda: ex.get_dol_hash(s))
            must(f"preparing {s}", lambda: ex.prepare_extract_section(anycase(r, s)))
            if r.random() < 0.5:
                refused("preparing a section twice", lambda: ex.prepare_extract_section(anycase(r, s)))
        refused("preparing an unknown section", lambda: ex.prepare_extract_section(r.choice(["", "FOO", "DAT", "DATA ", "DATAA", "update1"])))
        for s in SECS:
            if s not in sections:
                refused("preparing an absent section", lambda: ex.prepare_extract_section(anycase(r, s)))
        for s in chosen:
            h = must("dol hash", lambda: ex.get_dol_hash(anycase(r, s)))
            if bytes(h).hex() != sections[s]["dol_sha1"]:
                raise Violation(f"the DOL hash of {s} is {bytes(h).hex()} instead of {sections[s]['dol_sha1']}")
            add("DOL hashes")
        for s in chosen:
            if r.random() < 0.25:
                drop = {p for p in trees[s] if r.random() < 0.5}
                must("filter", lambda: ex.remove_files_by_callback(anycase(r, s), lambda p: p in drop))
                trees[s] = {p: v for p, v in trees[s].items() if p not in drop}
                add("filtered sections")
        # older files in the way
        older = set()
        want = want_for(sections, chosen, trees)
        if r.random() < 0.6:
            for rel in list(want):
                if r.random() < 0.4:
                    p = os.path.join(dest, rel)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(r.randbytes(r.choice([0, 1, want[rel][0], want[rel][0] + 1, want[rel][0] + r.randrange(70000)])))
                    add("older files replaced")
            for k in range(r.randrange(3)):
                rel = r.choice([f"old{k}", f"DATA/files/zz-old-{k}", f"DATA/old{k}"])
                p = os.path.join(dest, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").close()
                older.add(rel)
        vals = []
        cb = vals.append
        style = r.random()
        side = []
        if style < 0.2:
            kind = r.choice([RuntimeError, ValueError, OSError, KeyError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError])

            def cb(v):
                vals.append(v)
                raise kind("callback")
            add("raising progress callbacks")
        elif style < 0.3 and chosen:
            # the callback uses the same object (which may be refused) and another one (which may not)
            def cb(v):
                vals.append(v)
                if len(vals) != 2:
                    return
                for f in (lambda: ex.get_dol_hash(chosen[0]), lambda: ex.prepare_extract_section(chosen[0]),
                          lambda: ex.extract_to(dest + "-other", lambda v: None)):
                    try:
                        f()
                    except Exception:
                        pass
                try:
                    ey = disc_riider_py.WiiIsoExtractor(iso)
                    ey.prepare_extract_section(chosen[-1])
                    ey.extract_to(dest + "-side", lambda v: None)
                    side.append(chosen[-1])
                except BaseException as e:
                    side.append(e)
            add("callbacks that extract")
        given = r.choice([dest, dest + "/", pathlib.Path(dest), os.path.relpath(dest), os.path.join(WORK, "img", "..", os.path.basename(dest))])
        must("extracting", lambda: ex.extract_to(given, cb))
        busy = [s for s in chosen if any(v[0] for v in trees[s].values())]
        progress_ok(vals, "extraction", busy, max(0, len(busy) - 1))
        expect_tree(dest, want, older, "extraction")
        add("extractions")
        for s in side:
            if not isinstance(s, str):
                raise Violation(f"extracting during another extraction: {type(s).__name__}: {str(s)[:300]}")
            expect_tree(dest + "-side", want_for(sections, [s], {s: model_files(sections[s])}), (), "extraction during another one")
            add("extractions during another one")
        for d in ("-side", "-other"):
            shutil.rmtree(dest + d, ignore_errors=True)
        if len(chosen) > 1:
            add("several sections")
        sig.append([sorted(chosen), len(want), len(older)])
        # a later rebuild finds everything it needs
        if "DATA" in chosen and not icase_clash(trees["DATA"]) and not any(o.startswith("DATA/") for o in older):
            out = os.path.join(WORK, "rebuilt.iso")
            if r.random() < 0.3:
                with open(out, "wb") as f:
                    f.write(r.randbytes(0x51000))
                    if r.random() < 0.5:
                        f.truncate(r.choice([0x51001, 5_000_000, 50_000_000]))
                        f.seek(0, 2)
                        f.write(b"tail")
                add("rebuilds over older files")
            pv = []
            if r.random() < 0.5:
                cb = pv.append
            else:
                def cb(v):
                    pv.append(v)
                    raise r.choice([RuntimeError, KeyboardInterrupt, SystemExit])("callback")
            must("rebuilding", lambda: disc_riider_py.rebuild_from_directory(dest, out, cb))
            progress_ok(pv, "rebuild", trees["DATA"], 0)
            if r.random() < 0.5:
                # whatever the target held before, and whatever the callback does
                out2 = os.path.join(WORK, "rebuilt2.iso")
                must("rebuilding", lambda: disc_riider_py.rebuild_from_directory(dest, out2, lambda v: None))
                if os.path.getsize(out) != os.path.getsize(out2) or sha(out) != sha(out2):
                    raise Violation(f"two rebuilds of the same directory differ ({os.path.getsize(out)} and {os.path.getsize(out2)} bytes)")
                os.unlink(out2)
                add("rebuilds compared")
            ex2 = must("opening the rebuilt image", lambda: disc_riider_py.WiiIsoExtractor(out))
            must("preparing the rebuilt DATA", lambda: ex2.prepare_extract_section("data"))
            again = os.path.join(WORK, "again")
            must("extracting the rebuilt image", lambda: ex2.extract_to(again, lambda v: None))
            expect_tree(os.path.join(again, "DATA/files"), trees["DATA"], (), "extraction of the rebuilt image")
            shutil.rmtree(again, ignore_errors=True)
            os.unlink(out)
            add("rebuilds")
            if r.random() < 0.5:
                # a rebuild that cannot complete
                if r.random() < 0.5 and os.path.exists("/dev/full"):
                    out = "/dev/full"
                else:
                    victim = r.choice(["sys/boot.bin", "ticket.bin", "sys/main.dol", "sys/apploader.img", "sys/bi2.bin", "tmd.bin", "cert.bin", "disc/region.bin", "files"])
                    os.rename(os.path.join(dest, "DATA", victim), os.path.join(dest, "moved away"))
                refused("a rebuild that cannot complete", lambda: disc_riider_py.rebuild_from_directory(dest, out, lambda v: None))
                add("rebuilds refused")
        shutil.rmtree(dest, ignore_errors=True)
    # an image or a destination that cannot take everything: an error, or everything is there
    trees = {s: model_files(sections[s]) for s in names}
    fault = case % 5
    if fault == 4 and names:
        attempt("a destination with an obstacle", iso, names, sections, trees, r, "obstacle")
        add("obstacles")
    if fault == 1 and names:
        size = os.path.getsize(iso)
        cut = r.choice([r.randrange(size), size - r.randrange(1, 70000), size - r.randrange(1, 0x200000),
                        (size - r.randrange(1, 0x200000)) & ~0x7FFF, (size - 1) & ~0x7FFF])
        with open(iso, "r+b") as f:
            f.truncate(max(cut, 0))
        attempt("a cut image", iso, names, sections, trees, r)
        add("cut images")
    elif fault == 2 and names:
        # no file may grow beyond the limit
        lens = sorted({v[0] for v in want_for(sections, names, trees).values()} - {0})
        limit = max(0, r.choice(lens + lens[-3:]) - r.choice([0, 1, 1, 1, 100]))
        attempt("a destination with limited file size", iso, names, sections, trees, r, limit)
        add("limited destinations")
    elif fault == 3:
        bad, secs = gen(case + 3_000_000, "overrun")
        (s, sec), = secs.items()
        ex = must("opening", lambda: disc_riider_py.WiiIsoExtractor(bad))
        must("preparing", lambda: ex.prepare_extract_section(s))
        refused("extracting a file that reaches past the partition's data", lambda: ex.extract_to(dest + "o", lambda v: None))
        shutil.rmtree(dest + "o", ignore_errors=True)
        os.unlink(bad)
        add("overlong files")
    sample(f"image {case}: sections {sorted(sections)}, " + ", ".join(f"{s}: {len(model_files(sections[s]))} files" for s in names))
    return sig


def snapshot(root, skip):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if os.path.join(d, x) != skip]
        st = os.lstat(d)
        out[d] = ("dir", sorted(ds + fs))
        for f in fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            out[p] = ("file", st.st_size, st.st_mtime_ns, sha(p))
    return out


def c18(case, r):
    root = os.path.join(WORK, f"case{case}")
    victim = os.path.join(root, "victim")
    os.makedirs(victim)
    os.makedirs(os.path.join(root, "cwd"))
    os.makedirs(os.path.join(root, "sibling"))
    for p in (victim + "/keep.txt", root + "/sibling/keep.txt", root + "/keep.txt"):
        with open(p, "w") as f:
            f.write("precious")
    iso, sections = gen(case, "hostile", victim)
    (name, sec), = sections.items()
    # the destination always lies next to the victim directory, however it is written down
    dest = os.path.join(root, "dest")
    style = r.randrange(4)
    if style:
        os.makedirs(os.path.join(dest, name, "files") if style == 2 else dest)
    given = [dest, dest + "/", "../dest", os.path.join(root, "cwd", "..", "dest")][r.randrange(4)]
    os.chdir(os.path.join(root, "cwd"))
    files_dir = os.path.join(dest, name, "files")
    escaping, odd = [], False
    for comps, ln, _ in sec["nodes"]:
        if ln is None:
            continue
        p = os.path.normpath(os.path.join(files_dir, *comps))
        if p != dest and not p.startswith(dest + "/"):
            escaping.append("/".join(comps))
    before = snapshot(root, dest)
    ex = must("opening", lambda: disc_riider_py.WiiIsoExtractor(iso))
    must("preparing", lambda: ex.prepare_extract_section(name))
    if r.random() < 0.2:
        must("filter", lambda: ex.remove_files_by_callback(name, lambda p: False))
    err = None
    try:
        ex.extract_to(given, lambda v: None)
    except BaseException as e:
        err = e
    after = snapshot(root, dest)
    os.chdir(WORK)
    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    if diff:
        raise Violation(f"changed outside the destination: {[os.path.relpath(d, root) for d in diff][:4]} (names {escaping[:3]!r})")
    add("extractions")
    if escaping:
        add("escaping images")
        if err is None:
            raise Violation(f"names {escaping[:3]!r} lead out of the destination but extraction succeeded")
        add("escapes refused")
    else:
        add("harmless images")
    sample(f"names leading out: {escaping[:3]!r}, extraction: {type(err).__name__ if err else 'ok'}")
    shutil.rmtree(root, ignore_errors=True)
    os.unlink(iso)
    return ["/".join(n[0]) for n in sec["nodes"]]


class BadBool:
    def __bool__(self):
        raise ValueError("no truth value")


class Truthy:
    def __bool__(self):
        return True


class Falsy:
    def __bool__(self):
        return False


TRUE = [True, True, True, 1, -1, 2.5, "x", [0], (None,), {"a": 1}, Truthy(), object()]
FALSE = [False, False, False, 0, 0.0, "", [], (), {}, None, Falsy()]


def c19(case, r):
    iso, sections = gen(case + 1_000_000, "extract")
    names = list(sections)
    ex = must("opening", lambda: disc_riider_py.WiiIsoExtractor(iso))
    chosen = [s for s in names if r.random() < 0.8] or ([r.choice(names)] if names else [])
    for s in chosen:
        must("preparing", lambda: ex.prepare_extract_section(s))
    trees = {s: model_files(sections[s]) for s in names}
    sig = [case]
    nfil = r.randrange(1, 5)
    per = {}
    for _ in range(nfil):
        if not chosen:
            break
        s = r.choice(chosen)
        per[s] = per.get(s, 0) + 1
        if per[s] == 2:
            add("composed filters")
        style = r.randrange(6)
        bits = r.getrandbits(64)
        calls = []
        removed = set()

        def decide(p):
            x = random.Random(f"{bits}-{p}")
            if style == 0:
                return "keep" if x.random() < 0.5 else "drop"
            if style == 1:
                return "drop"
            if style == 2:
                return "keep"
            if style == 3:  # whole directories
                return "drop" if random.Random(f"{bits}-{p.split('/')[0]}").random() < 0.5 else "keep"
            if style == 4:
                return x.choice(["drop", "keep", "raise", "badbool"])
            return x.choice(["drop", "raise"])

        def cb(*a, **k):
            calls.append((a, k))
            p = a[0]
            d = decide(p)
            x = random.Random(f"{bits}+{p}")
            if d == "raise":
                add("callbacks that raised")
                raise x.choice([ValueError, KeyError, RuntimeError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit])("no")
            if d == "badbool":
                add("callbacks that raised")
                return BadBool()
            if d == "drop":
                removed.add(p)
                return x.choice(TRUE)
            return x.choice(FALSE)

        must("filtering", lambda: ex.remove_files_by_callback(anycase(r, s), cb))
        add("filters")
        add("callback calls", len(calls))
        for a, k in calls:
            if k or len(a) != 1 or not isinstance(a[0], str):
                raise Violation(f"the callback was called with {a!r} {k!r}")
        got = sorted(a[0] for a, _ in calls)
        want = sorted(trees[s])
        if got != want:
            twice = [p for p in set(got) if got.count(p) > 1]
            miss = sorted(set(want) - set(got))
            extra = sorted(set(got) - set(want))
            raise Violation(f"filter calls on {s}: missing {miss[:3]!r}, unexpected {extra[:3]!r}, repeated {twice[:3]!r}")
        trees[s] = {p: v for p, v in trees[s].items() if p not in removed}
        add("files removed", len(removed))
        sig.append([s, len(removed)])
    dest = os.path.join(WORK, f"dest{case}")
    must("extracting", lambda: ex.extract_to(dest, lambda v: None))
    for s in chosen:
        d = os.path.join(dest, s, "files")
        expect_tree(d, trees[s], (), f"extraction of {s} after filtering")
    add("extractions")
    sample(f"image {case}: filters {sig[1:]!r}, remaining " + ", ".join(f"{s}: {len(trees[s])}" for s in chosen))
    shutil.rmtree(dest, ignore_errors=True)
    os.unlink(iso)
    return sig


def main():
    fn = dict(C17=c17, C18=c18, C19=c19)[PID]
    for case in range(FIRST, FIRST + N):
        with open(os.path.join(WORK, "current"), "w") as f:
            f.write(str(case))
        r = random.Random(f"{PID}-{SEED}-{case}")
        try:
            sig = fn(case, r)
            OUT["distinct"].append(hashlib.sha1(json.dumps(sig).encode()).hexdigest()[:16])
            OUT["done"] += 1
        except Violation as v:
            OUT["violation"] = dict(case=case, message=str(v))
            OUT["done"] += 1
            break
        except Exception as e:
            import traceback
            OUT["error"] = f"case {case}: {traceback.format_exc()[-1500:]}"
            break
        shutil.rmtree(os.path.join(WORK, "img"), ignore_errors=True)
    print("WORKER " + json.dumps(OUT), flush=True)


main()
