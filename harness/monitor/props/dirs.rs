//! C15, C23, C24: reproducibility, refused directories, image copy.

use super::build::{check_readback, dir_opts, same_shape, verify_hashes};
use super::trees::{bad_name, BAD_CHARS};
use crate::faultio::*;
use crate::gen::{self, PartParams, TreeParams};
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::scen::*;
use binrw::BinWriterExt;
use disc_riider::builder::{build_copy, build_from_directory};
use disc_riider::WiiIsoReader;
use std::ffi::OsStr;
use std::fs;
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

fn h<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("HARNESS: {e}"))
}

pub const C15: Prop = Prop {
    id: "C15",
    run: c15,
    quick: 2200,
    thorough: 55000,
    rule: "a case is one source built from two directories with the same contents but another creation order and other timestamps, onto a memory, file, pre-sized or noisy destination; the images must be identical; then the image is extracted through the library and rebuilt, and all partitions must be identical; distinct by source",
    need: &[("image pairs", 300), ("files", 500), ("extract-rebuild cycles", 200), ("enumeration orders that differed", 20), ("builds in another process", 20)],
};

/// other time stamps and permissions for everything below a directory
fn other_metadata(p: &Path, rng: &mut Rng) -> Result<(), String> {
    use std::os::unix::fs::PermissionsExt;
    for e in h(fs::read_dir(p))? {
        let q = h(e)?.path();
        let m = h(fs::symlink_metadata(&q))?;
        if m.is_dir() {
            other_metadata(&q, rng)?;
        }
        if !m.is_symlink() {
            let t = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(rng.below(1 << 31));
            let f = h(fs::File::open(&q))?;
            h(f.set_times(fs::FileTimes::new().set_modified(t).set_accessed(t)))?;
            let mode = if m.is_dir() { *rng.pick(&[0o700, 0o755, 0o777]) } else { *rng.pick(&[0o400, 0o644, 0o755, 0o666]) };
            h(fs::set_permissions(&q, fs::Permissions::from_mode(mode)))?;
        }
    }
    Ok(())
}

/// directory listing order as the file system gives it
fn enumeration(p: &Path) -> Vec<Vec<u8>> {
    let mut v = vec![];
    fn walk(p: &Path, v: &mut Vec<Vec<u8>>) {
        if let Ok(d) = fs::read_dir(p) {
            for e in d.flatten() {
                v.push(e.file_name().as_bytes().to_vec());
                if e.path().is_dir() {
                    walk(&e.path(), v);
                }
            }
        }
    }
    walk(p, &mut v);
    v
}

fn c15(c: &mut Case) -> Res {
    let mut o = dir_opts(c.thorough);
    o.big = c.thorough;
    let s = pick_scenario(&mut c.rng, c.idx, o);
    let (a, b) = (c.scratch.join("a"), c.scratch.join("longer/b"));
    h(write_dir(&mut c.rng, &a, &s.sys, &s.tree, &s.files))?;
    // same contents, other order; sometimes entries are created and removed in between
    h(fs::create_dir_all(b.join("DATA/files")))?;
    for i in 0..c.rng.below(5) {
        h(fs::write(b.join(format!("DATA/files/zz-junk{i}")), b"junk"))?;
    }
    h(write_dir(&mut c.rng, &b, &s.sys, &s.tree, &s.files))?;
    for i in 0..5 {
        let _ = fs::remove_file(b.join(format!("DATA/files/zz-junk{i}")));
    }
    if c.rng.chance(3, 4) {
        other_metadata(&b, &mut c.rng)?;
    }
    if enumeration(&a.join("DATA/files")) != enumeration(&b.join("DATA/files")) {
        c.st.add("enumeration orders that differed", 1);
    }
    let img = build_dir_mem(&a).map_err(|e| format!("build: {e} ({})", s.describe()))?;
    let way = if c.idx % 20 == 7 { 9 } else { c.rng.below(4) };
    let (what, other): (&str, Vec<u8>) = match way {
        9 => {
            // another process, day, place and environment
            let mut k = std::process::Command::new(h(std::env::current_exe())?);
            let rel = c.rng.chance(1, 2);
            let (src, out) = if rel {
                ("longer/../longer//b".into(), "child.iso".into())
            } else {
                (b.clone(), c.scratch.join("child.iso"))
            };
            k.arg("build").arg(src).arg(out).current_dir(&c.scratch);
            if c.rng.chance(1, 2) {
                k.env_clear();
            }
            k.env("HOME", &c.scratch).env("TZ", "Pacific/Auckland").env("LC_ALL", "tr_TR.UTF-8").env("SOURCE_DATE_EPOCH", "1");
            if let Some(l) = std::env::var_os("MON_CLOCK") {
                k.env("LD_PRELOAD", l).env("CLOCK_SHIFT", c.rng.range(86_400, 900_000_000).to_string());
                c.st.add("builds with another date", 1);
            }
            let o = h(k.output())?;
            if !o.status.success() {
                return Err(format!("build in another process failed: {} {}", o.status, String::from_utf8_lossy(&o.stderr)));
            }
            c.st.add("builds in another process", 1);
            let p = c.scratch.join("child.iso");
            let d = h(fs::read(&p))?;
            h(fs::remove_file(&p))?;
            ("a file in another process", d)
        }
        0 => ("memory", build_dir_mem(&b)?),
        1 => {
            let p = c.scratch.join("out.iso");
            let mut f = h(fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&p))?;
            build_dir(&b, &mut f, &mut |_| ())?;
            drop(f);
            ("file", h(fs::read(&p))?)
        }
        2 => {
            let mut st = Store::new(vec![]);
            st.noise = Noise {
                rng: Some(c.rng.fork()),
                short: 90,
                intr: 30,
                err: 0,
                zero: false,
            };
            build_dir(&b, &mut st, &mut |_| ())?;
            ("short-transfer storage", st.data)
        }
        _ => {
            let mut st = Store::new(vec![]);
            st.pos = c.rng.below(1 << 20);
            build_dir(&b, &mut st, &mut |_| ())?;
            ("storage positioned elsewhere", st.data)
        }
    };
    if img != other {
        return Err(format!(
            "same contents, other image (second build onto {what}): {} ({})",
            diff_at(&other, &img),
            s.describe()
        ));
    }
    c.st.add("image pairs", 1);
    c.st.add("files", s.files.len() as u64);
    // extract and rebuild
    let x = c.scratch.join("x");
    extract(&img, &x.join("DATA"), &mut c.rng).map_err(|e| format!("extracting: {e} ({})", s.describe()))?;
    let again = build_dir_mem(&x).map_err(|e| format!("rebuilding the extracted image: {e} ({})", s.describe()))?;
    let (l1, l2) = (list_parts(&img)?, list_parts(&again)?);
    if l1 != l2 {
        return Err(format!("partitions {l1:?} become {l2:?} ({})", s.describe()));
    }
    if img[0x50000..] != again[0x50000..] {
        return Err(format!(
            "rebuilt partition differs (offsets from 0x50000): {} ({})",
            diff_at(&again[0x50000..], &img[0x50000..]),
            s.describe()
        ));
    }
    if img[0x4E000..0x4E020] != again[0x4E000..0x4E020] {
        return Err("rebuilt region differs".into());
    }
    c.st.add("extract-rebuild cycles", 1);
    if !s.files.is_empty() {
        c.st.distinct(s.signature());
    }
    c.st.sample(|| s.describe());
    Ok(())
}

/// what the extraction tools do, through the library's public API
fn extract(img: &[u8], to: &Path, rng: &mut Rng) -> Result<(), String> {
    let es = |e: binrw::Error| format!("{e}");
    let mut r = WiiIsoReader::open(Cursor::new(img)).map_err(es)?;
    let e = r.partitions().first().cloned().ok_or("nothing listed")?;
    let mut p = r.open_partition(e).map_err(es)?;
    h(fs::create_dir_all(to.join("disc")))?;
    h(fs::create_dir_all(to.join("files")))?;
    h(fs::write(to.join("disc/region.bin"), r.get_region()))?;
    if rng.chance(1, 3) {
        // what an earlier extraction left, of the very same lengths
        h(fs::create_dir_all(to.join("sys")))?;
        let dol = p.read_dol(&mut r).map_err(es)?.len();
        let app = p.read_apploader(&mut r).map_err(es)?.len();
        for (f, n) in [("boot.bin", 0x440), ("bi2.bin", 0x2000), ("apploader.img", app), ("main.dol", dol)] {
            h(fs::write(to.join("sys").join(f), vec![0x57; n]))?;
        }
    }
    p.extract_system_files(to, &mut r).map_err(es)?;
    let mut w = |n: &str, f: &mut dyn FnMut(&mut Cursor<Vec<u8>>) -> binrw::BinResult<()>| -> Result<(), String> {
        let mut o = Cursor::new(vec![]);
        f(&mut o).map_err(es)?;
        h(fs::write(to.join(n), o.into_inner()))
    };
    let tmd = p.read_tmd(&mut r).map_err(es)?;
    let certs = p.read_certificates(&mut r).map_err(es)?;
    let ticket = p.get_partition_header().ticket.clone();
    w("tmd.bin", &mut |o| o.write_be(&tmd))?;
    w("cert.bin", &mut |o| o.write_be(&certs))?;
    w("ticket.bin", &mut |o| o.write_be(&ticket))?;
    let mut files = tree_files(&from_fst(p.get_fst()));
    rng.shuffle(&mut files);
    for (path, off, len) in files {
        let mut d = to.join("files");
        for n in &path[..path.len() - 1] {
            d.push(n);
        }
        h(fs::create_dir_all(&d))?;
        let mut b = vec![];
        p.get_crypto_reader(&mut r).read_into_vec(off, len as u64, &mut b).map_err(|e| e.to_string())?;
        h(fs::write(d.join(path.last().unwrap()), b))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C23: Prop = Prop {
    id: "C23",
    run: c23,
    quick: 40000,
    thorough: 1000000,
    rule: "a case is one directory with one defect placed anywhere in it (missing or wrong-kind system file, letter-case collision of files and directories, non-Unicode or unrepresentable name, dangling link, over-long file, over-long bi2, a system file cut short, a file that disappears during the build), built; a control build of the same directory without the defect must succeed and be faithful; distinct by (defect, placement)",
    need: &[
        ("missing system file", 100),
        ("files directory missing", 10),
        ("case collision", 200),
        ("directory collision", 50),
        ("name not Unicode", 50),
        ("name not representable", 150),
        ("file too large", 20),
        ("bi2 too long", 100),
        ("system file cut short", 100),
        ("controls", 100),
        ("file disappears", 50),
        ("near collisions", 100),
    ],
};

const REQUIRED: &[&str] = &[
    "sys/boot.bin",
    "sys/bi2.bin",
    "sys/apploader.img",
    "sys/main.dol",
    "disc/region.bin",
    "ticket.bin",
    "tmd.bin",
    "cert.bin",
];

fn toggled(rng: &mut Rng, n: &str) -> Option<String> {
    let letters: Vec<usize> = n.char_indices().filter(|(_, ch)| ch.is_ascii_alphabetic()).map(|x| x.0).collect();
    if letters.is_empty() {
        return None;
    }
    let mut b = n.as_bytes().to_vec();
    let k = rng.range(1, letters.len() as u64) as usize;
    for _ in 0..k {
        let i = *rng.pick(&letters);
        b[i] ^= 0x20;
    }
    if b == n.as_bytes() {
        let i = *rng.pick(&letters);
        b[i] ^= 0x20;
    }
    String::from_utf8(b).ok()
}

fn c23(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    let tree = gen::tree(
        rng,
        TreeParams {
            max_nodes: 14,
            max_depth: 5,
            sorted: true,
            allow_empty_dirs: true,
            fancy: true,
        },
    );
    let s = Scen {
        sys: gen::sys(rng, None),
        files: gen::contents(rng, &tree, 3000),
        tree,
        label: "defective directory",
    };
    let root = c.scratch.join("src");
    h(write_dir(rng, &root, &s.sys, &s.tree, &s.files))?;
    let data = root.join("DATA");
    // directories a defect can sit in
    let mut dirs: Vec<PathBuf> = vec![data.join("files")];
    for (p, is_dir) in tree_nodes(&s.tree) {
        if is_dir {
            dirs.push(data.join("files").join(p.join("/")));
        }
    }
    let dir = rng.pick(&dirs).clone();
    let mut names: Option<String> = None;
    let kind = c.idx % 14;
    let what: String = match kind {
        0 | 1 => {
            let f = REQUIRED[(c.idx / 14) as usize % REQUIRED.len()];
            h(fs::remove_file(data.join(f)))?;
            let mut w = format!("{f} missing");
            match rng.below(4) {
                0 => {
                    h(fs::create_dir(data.join(f)))?;
                    w = format!("{f} is a directory");
                }
                1 => {
                    h(std::os::unix::fs::symlink("/nonexistent/target", data.join(f)))?;
                    w = format!("{f} is a dangling link");
                }
                _ => {}
            }
            names = Some(f.rsplit('/').next().unwrap().to_string());
            c.st.add("missing system file", 1);
            w
        }
        2 => {
            h(fs::remove_dir_all(data.join("files")))?;
            if rng.chance(1, 3) {
                h(fs::write(data.join("files"), b"x"))?;
            }
            c.st.add("files directory missing", 1);
            "files directory missing".into()
        }
        3 | 4 => {
            // file against file or file against directory
            let n = loop {
                let n = gen::name(rng);
                if let Some(t) = toggled(rng, &n) {
                    if !dir.join(&n).exists() && !dir.join(&t).exists() {
                        break (n, t);
                    }
                }
            };
            let mut mk = vec![n.0.clone(), n.1.clone()];
            rng.shuffle(&mut mk);
            let against_dir = rng.chance(1, 3);
            for (i, n) in mk.iter().enumerate() {
                if against_dir && i == 0 {
                    h(fs::create_dir(dir.join(n)))?;
                    h(fs::write(dir.join(n).join("inner"), b"inner"))?;
                } else {
                    h(fs::write(dir.join(n), n.as_bytes()))?;
                }
            }
            if rng.chance(1, 2) && against_dir {
                // the other creation order
                h(fs::rename(dir.join(&mk[1]), dir.join("tmp-entry")))?;
                h(fs::rename(dir.join(&mk[0]), dir.join("tmp-entry2")))?;
                h(fs::rename(dir.join("tmp-entry"), dir.join(&mk[1])))?;
                h(fs::rename(dir.join("tmp-entry2"), dir.join(&mk[0])))?;
            }
            c.st.add("case collision", 1);
            format!("{mk:?} side by side{}", if against_dir { " (the first a directory)" } else { "" })
        }
        5 => {
            // directory against directory, with equal or different contents
            let n = loop {
                let n = gen::name(rng);
                if let Some(t) = toggled(rng, &n) {
                    if !dir.join(&n).exists() && !dir.join(&t).exists() {
                        break (n, t);
                    }
                }
            };
            let same = rng.chance(1, 2);
            for (i, n) in [&n.0, &n.1].iter().enumerate() {
                h(fs::create_dir(dir.join(n)))?;
                let inner = if same { "x.bin".to_string() } else { format!("x{i}.bin") };
                h(fs::write(dir.join(n).join(inner), format!("content {i}")))?;
            }
            c.st.add("case collision", 1);
            c.st.add("directory collision", 1);
            format!("directories {n:?} side by side, inner names {}", if same { "equal" } else { "different" })
        }
        6 => {
            let k = rng.range(1, 6) as usize;
            let mut b: Vec<u8> = gen::name(rng).into_bytes();
            b.truncate(k);
            b.push(*rng.pick(&[0xffu8, 0x80, 0xc3, 0xfe]));
            if rng.chance(1, 2) {
                b.extend(b".bin");
            }
            if std::str::from_utf8(&b).is_ok() {
                b.push(0xff);
            }
            let p = dir.join(OsStr::from_bytes(&b));
            if rng.chance(1, 3) {
                h(fs::create_dir(&p))?;
                h(fs::write(p.join("inner"), b"1"))?;
            } else {
                h(fs::write(&p, b"1"))?;
            }
            c.st.add("name not Unicode", 1);
            format!("name {b:02x?}")
        }
        7..=9 => {
            let n = loop {
                let n = if rng.chance(1, 2) {
                    bad_name(rng)
                } else {
                    let ch = *rng.pick(BAD_CHARS);
                    format!("{}{ch}{}", rng.pick(&["", "a", "ab"]), rng.pick(&["", "b", ".bin"]))
                };
                // what a file system can hold, next to what is there already
                if n.is_empty() || n.len() > 200 || n.contains(['/', '\0']) || n == "." || n == ".." || sjis(&n).is_some() || dir.join(&n).exists() {
                    continue;
                }
                break n;
            };
            let p = dir.join(&n);
            if rng.chance(1, 3) {
                h(fs::create_dir(&p))?;
                h(fs::write(p.join("inner"), b"1"))?;
            } else {
                h(fs::write(&p, b"1"))?;
            }
            c.st.add("name not representable", 1);
            format!("name {n:?}")
        }
        10 => {
            let p = dir.join("too-large.bin");
            let len = (1u64 << 32) + *rng.pick(&[0u64, 1, 0x1000, 1 << 32, (1 << 32) + 5, (1 << 33) + 77]);
            let f = h(fs::File::create(&p))?;
            h(f.set_len(len))?;
            c.st.add("file too large", 1);
            format!("file of {len:#x} bytes")
        }
        11 => {
            // there is no room for more between the header and the apploader
            let n = 0x2000 + *rng.pick(&[1u64, 2, 4, 0x20, 0x440, 0x2000, 0x10000, 0x20_0000]) as usize;
            let n = if rng.chance(1, 2) { n } else { 0x2000 + rng.range(1, 0x3000) as usize };
            h(fs::write(data.join("sys/bi2.bin"), rng.bytes(n)))?;
            c.st.add("bi2 too long", 1);
            format!("bi2.bin of {n:#x} bytes")
        }
        12 => {
            // a structure that ends before its last defined field does
            let cert_end = s.sys.certs.len() - 52;
            let all = [
                ("sys/boot.bin", 0x43c),
                ("disc/region.bin", 32),
                ("ticket.bin", 0x2a4),
                ("tmd.bin", s.sys.tmd.len()),
                ("cert.bin", cert_end),
            ];
            let (f, full) = all[(c.idx / 14) as usize % all.len()];
            let n = if rng.chance(1, 3) { full as u64 - rng.range(1, 3) } else { rng.below(full as u64) };
            let b = h(fs::read(data.join(f)))?;
            h(fs::write(data.join(f), &b[..n as usize]))?;
            c.st.add("system file cut short", 1);
            format!("{f} cut to {n:#x} of {:#x} bytes", b.len())
        }
        _ => {
            let sub = (c.idx / 14) % 4;
            if sub == 0 && !s.files.is_empty() {
                // a file that disappears during the build
                let all: Vec<_> = s.files.keys().cloned().collect();
                let p = rng.pick(&all).clone();
                let gone = data.join("files").join(p.join("/"));
                let mut out = Cursor::new(vec![]);
                let r = build_from_directory(&root, &mut out, &mut |_| {
                    let _ = fs::remove_file(&gone);
                });
                // the callback may come too late for the file
                if r.is_ok() {
                    let img = out.into_inner();
                    check_readback(&img, &s, rng).map_err(|e| format!("built although {} disappeared: {e}", pathstr(&p)))?;
                }
                c.st.add("file disappears", 1);
                return Ok(());
            }
            let (mut s, mut extra) = (s, vec![]);
            if sub == 1 {
                // names that differ in more than ASCII case are different names
                let pairs = [("Ａ", "ａ"), ("Α", "α"), ("Ж", "ж"), ("aЯ", "Aя"), ("x", "ｘ"), ("ア", "ｱ"), ("カ", "ガ"), ("[", "{"), ("@", "`"), ("\\", "|")];
                for (a, b) in pairs {
                    let at: Vec<String> = dir.strip_prefix(data.join("files")).unwrap().iter().map(|x| x.to_str().unwrap().to_string()).collect();
                    let there: Vec<String> = h(fs::read_dir(&dir))?.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
                    if rng.chance(1, 2) && !there.iter().any(|t| t.eq_ignore_ascii_case(a) || t.eq_ignore_ascii_case(b)) {
                        for n in [a, b] {
                            h(fs::write(dir.join(n), n.as_bytes()))?;
                            extra.push((at.clone(), n.to_string()));
                        }
                    }
                }
                for (at, n) in &extra {
                    let mut k = &mut s.tree;
                    for p in at {
                        let i = k.iter().position(|x| x.name() == p).unwrap();
                        k = match &mut k[i] {
                            RNode::Dir { kids, .. } => kids,
                            _ => return Err("HARNESS: not a directory".into()),
                        };
                    }
                    k.push(RNode::File { name: n.clone(), off: 0, len: 0 });
                    let p: Vec<String> = at.iter().cloned().chain([n.clone()]).collect();
                    s.files.insert(p, n.as_bytes().to_vec());
                }
                c.st.add("near collisions", extra.len() as u64 / 2);
            }
            // control: the same directory without a defect, or a defect that is none
            let img = build_dir_mem(&root).map_err(|e| format!("well-formed directory refused: {e} ({})", s.describe()))?;
            check_readback(&img, &s, rng).map_err(|e| format!("{e} ({})", s.describe()))?;
            c.st.add("controls", 1);
            return Ok(());
        }
    };
    c.st.distinct(hash_bytes(what.as_bytes()) ^ hash_bytes(dir.file_name().map(|x| x.as_bytes()).unwrap_or(b"")) ^ mix(kind));
    let at = dir.strip_prefix(&data).map(|p| p.display().to_string()).unwrap_or_default();
    let mut out = Cursor::new(vec![]);
    match build_from_directory(&root, &mut out, &mut |_| ()) {
        Ok(()) => Err(format!("built although: {what} (in {at})")),
        Err(e) => {
            if let Some(n) = names {
                let text = format!("{e} {e:?}");
                if !text.contains(&n) {
                    return Err(format!("the error for \"{what}\" does not name the path: {e}"));
                }
            }
            c.st.sample(|| format!("{what}: {e}"));
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub const C24: Prop = Prop {
    id: "C24",
    run: c24,
    quick: 3500,
    thorough: 90000,
    rule: "a case is one source image (reference-made with foreign layout and several partitions, or library-built) with a THP directory, copied; the copy is taken apart by the reference and compared with the source model; distinct by source tree and system files",
    need: &[("copies", 200), ("files", 1000), ("THP entries dropped", 100), ("THP entries kept", 100), ("foreign sources", 80), ("sources beyond 4 GiB", 40)],
};

fn thp(rng: &mut Rng) -> RNode {
    let pool = [
        "Demo", "Demo01_01.thp", "Demo99", "DemoX", "demo01", "DEMO", "Dem", "ADemo", "Title.thp", "z", "Demo dir", "other dir", "Demoデモ", "映像",
    ];
    let mut v: Vec<&str> = pool.to_vec();
    rng.shuffle(&mut v);
    v.truncate(rng.below(9) as usize);
    let mut used = std::collections::HashSet::new();
    let mut kids = vec![];
    for n in v {
        if !used.insert(lower(n)) {
            continue;
        }
        if n.ends_with("dir") {
            kids.push(RNode::Dir {
                name: n.into(),
                kids: vec![
                    RNode::File {
                        name: "Demo_in".into(),
                        off: 0,
                        len: 0,
                    },
                    RNode::File {
                        name: "other".into(),
                        off: 0,
                        len: 0,
                    },
                ],
            });
        } else {
            kids.push(RNode::File {
                name: n.into(),
                off: 0,
                len: 0,
            });
        }
    }
    RNode::Dir { name: "THP".into(), kids }
}

fn c24(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    let sorted = rng.chance(1, 2);
    let mut tree = gen::tree(
        rng,
        TreeParams {
            max_nodes: 20,
            max_depth: 5,
            sorted,
            allow_empty_dirs: true,
            fancy: true,
        },
    );
    tree.retain(|n| lower(n.name()) != b"thp" && lower(n.name()) != b"decoy");
    tree.push(thp(rng));
    if rng.chance(1, 3) {
        // only the directory in the root is thinned out
        let inner = thp(rng);
        tree.push(RNode::Dir {
            name: "decoy".into(),
            kids: vec![inner],
        });
    }
    let i = rng.below(tree.len() as u64) as usize;
    let last = tree.len() - 1;
    tree.swap(i, last);
    h(fs::create_dir_all(c.scratch))?;
    // source image and its model
    let mut far = None;
    let (img, sys, tree, files, disc_hdr, region) = if c.idx % 40 == 5 {
        c.st.add("sources beyond 4 GiB", 1);
        let (g, s, shift) = super::read::far_with(rng, &tree);
        let d = &g.parts[0];
        let files = tree_files(&d.tree)
            .into_iter()
            .map(|(p, o, l)| (p, d.part.plain[super::read::stored_at(o, shift)..][..l as usize].to_vec()))
            .collect();
        far = Some(s);
        (vec![], d.sys.clone(), d.tree.clone(), files, g.disc.header.clone(), g.disc.region)
    } else if rng.chance(1, 2) {
        c.st.add("foreign sources", 1);
        let groups = rng.range(1, 2) as usize;
        let data = gen::ref_part_with(rng, 0x50000, 0, groups, tree);
        let mut parts = vec![data];
        let extra = rng.below(3);
        for _ in 0..extra {
            let off = parts.last().unwrap().part.end();
            // a second DATA partition may follow: the first one counts
            let kind = rng.below(3) as u32;
            parts.push(gen::ref_part(
                rng,
                off,
                kind,
                PartParams {
                    groups: 1,
                    max_nodes: 5,
                    sorted: false,
                    fancy: true,
                    empty_dirs: true,
                },
            ));
        }
        let mut order: Vec<usize> = (0..parts.len()).collect();
        if rng.chance(1, 2) {
            // other types may come first in the table
            let others: Vec<usize> = order.iter().copied().filter(|i| parts[*i].part.kind != 0).collect();
            let datas: Vec<usize> = order.iter().copied().filter(|i| parts[*i].part.kind == 0).collect();
            order = others.into_iter().chain(datas).collect();
        }
        let (hd, rg) = (gen::disc_header(rng), rng.arr());
        let disc = RDisc {
            header: hd.clone(),
            region: rg,
            tables: vec![(0x40020, order), (0x41000, vec![]), (0x41000, vec![]), (0x41000, vec![])],
            parts: parts.iter().map(|p| p.part.clone()).collect(),
        };
        let d = &parts[0];
        let files = tree_files(&d.tree)
            .into_iter()
            .map(|(p, o, l)| (p, d.part.plain[o as usize..o as usize + l as usize].to_vec()))
            .collect();
        (disc.render(), d.sys.clone(), d.tree.clone(), files, hd, rg)
    } else {
        let s = gen::sys(rng, None);
        let files = gen::contents(rng, &tree, 400_000);
        let mut def = Def::new(&s, &tree, &files);
        let mut o = Cursor::new(vec![]);
        build_def(&mut o, 0, &mut def, &mut |_| ())?;
        let (hd, rg) = (s.header.clone(), s.region);
        (o.into_inner(), s, tree, files, hd, rg)
    };
    let (src, dst) = (c.scratch.join("src.iso"), c.scratch.join("dst.iso"));
    match &far {
        Some(s) => h(super::read::write_sparse(&src, s))?,
        None => h(fs::write(&src, &img))?,
    }
    let stamp = h(fs::metadata(&src).and_then(|m| Ok((m.len(), m.modified()?))))?;
    // the destination has to exist; what it held before must not matter
    let old = *rng.pick(&[0usize, 0x60000, 0xC0000, 0x2A0000, 0x500000]);
    let junk = rng.bytes(old);
    h(fs::write(&dst, junk))?;
    let describe = format!("{} nodes, dol {:#x}, apploader {:#x}", tree_nodes(&tree).len(), sys.dol.len(), sys.apploader.len());
    build_copy(&src, &dst).map_err(|e| format!("copy failed: {e} ({describe})"))?;
    if h(fs::metadata(&src).and_then(|m| Ok((m.len(), m.modified()?))))? != stamp {
        return Err("the source image was written to".into());
    }
    if far.is_none() {
        let after = h(fs::read(&src))?;
        if after != img {
            return Err(format!("the source image was modified: {}", diff_at(&after, &img)));
        }
    }
    let out = h(fs::read(&dst))?;
    // expected tree
    let mut want = tree.clone();
    for n in want.iter_mut() {
        if let RNode::Dir { name, kids } = n {
            if name == "THP" {
                let before = kids.len();
                kids.retain(|k| k.name().starts_with("Demo"));
                c.st.add("THP entries dropped", (before - kids.len()) as u64);
                c.st.add("THP entries kept", kids.len() as u64);
            }
        }
    }
    let l = list_parts(&out)?;
    let [(0, off)] = l[..] else {
        return Err(format!("the copy lists {l:x?} instead of one DATA partition"));
    };
    let v = open_part_opt(&out, 0, off, false).map_err(|e| format!("copy: {e} ({describe})"))?;
    if v.extent().1 != out.len() as u64 {
        return Err(format!("the copy has {:#x} bytes, its partition ends at {:#x} (the destination held {old:#x} bytes)", out.len(), v.extent().1));
    }
    verify_hashes(&out, off, c.st).map_err(|e| format!("copy: {e} ({describe})"))?;
    same_shape(&v.fst, &want, "copy").map_err(|e| format!("{e} ({describe})"))?;
    for (p, o, n) in tree_files(&v.fst) {
        expect_eq(&format!("copied {}", pathstr(&p)), v.file(o, n)?, &files[&p])?;
        c.st.add("files", 1);
    }
    let at = |o: u64, n: usize| v.plain.get(o as usize..o as usize + n).ok_or("outside the copy's data".to_string());
    expect_eq("bi2", at(0x440, sys.bi2.len())?, &sys.bi2)?;
    expect_eq("apploader", at(0x2440, sys.apploader.len())?, &sys.apploader)?;
    expect_eq("DOL", at(v.dol_off, sys.dol.len())?, &sys.dol).map_err(|e| format!("{e} ({describe})"))?;
    expect_eq("partition header", &gen::header_without_layout(&v.boot), &gen::header_without_layout(&sys.header))?;
    if Some(v.key) != ticket_key(&sys.ticket) {
        return Err("the copy has another title key".into());
    }
    expect_eq("ticket", &ticket_defined(&v.ticket), &ticket_defined(&sys.ticket))?;
    expect_eq("TMD", &tmd_carried(&v.tmd), &tmd_carried(&sys.tmd))?;
    expect_eq("certificates", &v.certs, &sys.certs)?;
    expect_eq("disc header", &out[..HDR_LEN], &disc_hdr)?;
    expect_eq("region", &out[0x4E000..0x4E020], &region)?;
    c.st.add("copies", 1);
    c.st.distinct(hash_bytes(&out[0x50000..0x50400]));
    c.st.sample(|| describe);
    Ok(())
}
