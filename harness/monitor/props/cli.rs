//! C20: the command line tool, run as a process.

use super::build::dir_opts;
use crate::gen::{self, PartParams};
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, mix};
use crate::runner::*;
use crate::scen::*;
use std::fs;
use std::path::Path;
use std::process::{Command, Output, Stdio};

pub const C20: Prop = Prop {
    id: "C20",
    run: c20,
    quick: 3500,
    thorough: 90000,
    rule: "a case is one image or source directory given to the command line tool in a child process; output, files written and exit status are compared with the reference model; distinct by (command, image)",
    need: &[
        ("sections listed", 200),
        ("nodes printed", 1000),
        ("system files compared", 300),
        ("rebuilds", 40),
        ("refusals", 150),
        ("far images", 1),
    ],
};

const NAMES: [&str; 3] = ["DATA", "UPDATE", "CHANNEL"];

fn h<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("HARNESS: {e}"))
}

fn tool(args: &[&std::ffi::OsStr], cwd: &Path) -> Result<Output, String> {
    let exe = std::env::var_os("MON_ISO_TOOL").ok_or("HARNESS: MON_ISO_TOOL not set")?;
    h(Command::new(exe).args(args).current_dir(cwd).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output())
}

macro_rules! run {
    ($c:expr, $($a:expr),*) => {{
        $c.st.add("commands run", 1);
        tool(&[$(std::ffi::OsStr::new(&$a)),*], $c.scratch)
    }};
}

fn errtext(o: &Output) -> String {
    let e = String::from_utf8_lossy(&o.stderr);
    format!("{}: {}", o.status, e.trim().chars().take(300).collect::<String>())
}

fn letter_case(rng: &mut crate::rng::Rng, s: &str) -> String {
    s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_lowercase() } else { c }).collect()
}

fn c20(c: &mut Case) -> Res {
    h(fs::create_dir_all(c.scratch))?;
    match c.idx % 8 {
        0..=4 => image(c),
        5 | 6 => rebuild(c),
        _ => refusals(c),
    }
}

fn image(c: &mut Case) -> Res {
    // mostly a few small partitions; now and then many, a wide or a deep tree
    let special = match c.idx % 400 {
        40 | 80 | 120 | 160 | 200 => 8,
        x => x,
    };
    let n = if special == 2 { c.rng.range(5, 40) as usize } else { c.rng.range(1, 4) as usize };
    let mut g = gen::ref_disc(&mut c.rng, n, &mut |r, k| PartParams {
        groups: if special == 8 && k == 0 { 5 } else { 1 },
        max_nodes: if special == 8 && k == 0 { 4500 } else { r.range(1, 40) as usize },
        sorted: false,
        fancy: true,
        empty_dirs: true,
    });
    if special == 16 {
        let depth = c.rng.range(20, 200) as usize;
        let t = gen::deep_tree(&mut c.rng, depth);
        let kind = c.rng.below(3) as u32;
        let p = gen::ref_part_with(&mut c.rng, 0x50000, kind, 2, t);
        g.disc.tables = vec![(0x40020, vec![0]), (0x41000, vec![]), (0x41000, vec![]), (0x41000, vec![])];
        g.disc.parts = vec![p.part.clone()];
        g.parts = vec![p];
        c.st.add("deep trees", 1);
    }
    let iso = c.scratch.join("disc image.iso");
    let mut shifts = vec![(usize::MAX / GRPD, 0); g.parts.len()];
    let img;
    if special == 24 || special == 32 {
        // partitions and files beyond 4 GiB
        let (d, s, sh) = super::read::far_disc(&mut c.rng, n);
        (g, shifts) = (d, sh);
        h(super::read::write_sparse(&iso, &s))?;
        img = s.segs[&0].clone();
        c.st.add("far images", 1);
    } else {
        img = g.disc.render();
        h(fs::write(&iso, &img))?;
    }
    // sections
    let o = run!(c, "sections", iso)?;
    if !o.status.success() {
        return Err(format!("sections failed: {}", errtext(&o)));
    }
    let text = String::from_utf8_lossy(&o.stdout).into_owned();
    let mut got = vec![];
    for line in text.lines().filter(|l| !l.trim().is_empty()) {
        let words: Vec<&str> = line.split(|ch: char| !ch.is_ascii_alphanumeric()).filter(|w| !w.is_empty()).collect();
        let kind = words.iter().find_map(|w| NAMES.iter().position(|n| n.eq_ignore_ascii_case(w)));
        let off = words.last().and_then(|w| u64::from_str_radix(w.strip_prefix("0x").unwrap_or(w), 16).ok());
        match (kind, off) {
            (Some(k), Some(o)) => got.push((k as u32, o)),
            _ => return Err(format!("sections prints a line without type and offset: {line:?}")),
        }
    }
    let want = g.disc.listing();
    if got != want {
        return Err(format!("sections lists {got:x?}, the image holds {want:x?}"));
    }
    c.st.add("sections listed", got.len() as u64);
    // the first partition of a type is the one a section name refers to
    for kind in 0..3u32 {
        let first = want.iter().position(|x| x.0 == kind).map(|i| want[i].1);
        let at = first.and_then(|off| g.parts.iter().position(|p| p.part.off == off && p.part.kind == kind));
        let part = at.map(|i| (&g.parts[i], shifts[i]));
        let name = letter_case(&mut c.rng, NAMES[kind as usize]);
        let o = if kind == 0 && c.rng.chance(1, 4) {
            run!(c, "print-files", iso)?
        } else {
            run!(c, "print-files", iso, "--section", name)?
        };
        let dest = c.scratch.join(format!("out-{kind}"));
        if c.rng.chance(1, 3) {
            // older, longer files are replaced
            h(fs::create_dir_all(dest.join("sys")))?;
            for f in ["boot.bin", "main.dol", "fst.bin"] {
                h(fs::write(dest.join("sys").join(f), vec![0x55; 300_000]))?;
            }
        } else if let (Some((p, _)), true) = (&part, c.rng.chance(1, 2)) {
            // so are older files of just the same length
            h(fs::create_dir_all(dest.join("sys")))?;
            let fst_len = (be32(&p.sys.header, 0x428) as usize) << 2;
            for (f, n) in [
                ("boot.bin", 0x440),
                ("bi2.bin", 0x2000),
                ("apploader.img", p.sys.apploader.len()),
                ("main.dol", p.sys.dol.len()),
                ("fst.bin", fst_len),
            ] {
                h(fs::write(dest.join("sys").join(f), vec![0x56; n]))?;
            }
        }
        let x = match c.rng.below(4) {
            0 if kind == 0 => run!(c, "extract-sys", iso, dest)?,
            1 => run!(c, "extract-sys", "--section", name, iso, dest)?,
            2 => run!(c, "extract-sys", format!("--section={name}"), iso, dest)?,
            _ => run!(c, "extract-sys", iso, dest, "--section", name)?,
        };
        let Some((p, shift)) = part else {
            if o.status.success() || x.status.success() {
                return Err(format!("section {name} is absent but print-files gave {} and extract-sys {}", o.status, x.status));
            }
            c.st.add("refusals", 2);
            continue;
        };
        if !o.status.success() {
            return Err(format!("print-files {name} failed: {}", errtext(&o)));
        }
        let mut text = String::new();
        for (path, _) in tree_nodes(&p.tree) {
            text += &"  ".repeat(path.len() - 1);
            text += path.last().unwrap();
            text.push('\n');
        }
        expect_eq(&format!("print-files {name}"), &o.stdout, text.as_bytes())?;
        c.st.add("nodes printed", tree_nodes(&p.tree).len() as u64);
        if !x.status.success() {
            return Err(format!("extract-sys {name} failed: {}", errtext(&x)));
        }
        let fst_len = (be32(&p.sys.header, 0x428) as usize) << 2;
        c.st.add("file tables of 64 KiB and more", (fst_len >= 0x10000) as u64);
        let fst = &p.part.plain[super::read::stored_at(p.fst_off, shift)..][..fst_len];
        for (f, want) in [
            ("boot.bin", &p.sys.header[..]),
            ("bi2.bin", &p.sys.bi2[..]),
            ("apploader.img", &p.sys.apploader[..]),
            ("main.dol", &p.sys.dol[..]),
            ("fst.bin", fst),
        ] {
            let got = fs::read(dest.join("sys").join(f)).map_err(|e| format!("extract-sys did not write {f}: {e}"))?;
            expect_eq(&format!("extract-sys {f}"), &got, want)?;
            c.st.add("system files compared", 1);
        }
    }
    c.st.distinct(hash_bytes(&img[..0x400]) ^ mix(img.len() as u64));
    c.st.sample(|| format!("image with {want:x?}"));
    Ok(())
}

fn rebuild(c: &mut Case) -> Res {
    let mut o = dir_opts(c.thorough);
    o.big = false;
    o.budget = 1_500_000;
    let k = c.rng.below(KINDS);
    let s = scenario(&mut c.rng, k, o);
    let root = c.scratch.join("source dir");
    h(write_dir(&mut c.rng, &root, &s.sys, &s.tree, &s.files))?;
    let want = build_dir_mem(&root).map_err(|e| format!("library build: {e}"))?;
    let dest = c.scratch.join("new.iso");
    if c.rng.chance(1, 2) {
        let n = want.len() + c.rng.below(100_000) as usize;
        let junk = c.rng.bytes(n);
        h(fs::write(&dest, junk))?;
    }
    let r = run!(c, "rebuild", root, dest)?;
    if !r.status.success() {
        return Err(format!("rebuild failed: {} ({})", errtext(&r), s.describe()));
    }
    let got = fs::read(&dest).map_err(|e| format!("rebuild wrote nothing: {e}"))?;
    expect_eq("rebuilt image", &got, &want).map_err(|e| format!("{e} ({})", s.describe()))?;
    c.st.add("rebuilds", 1);
    c.st.distinct(s.signature());
    Ok(())
}

fn refusals(c: &mut Case) -> Res {
    let g = gen::ref_disc(&mut c.rng, 1, &mut |_, _| PartParams {
        groups: 1,
        max_nodes: 5,
        sorted: false,
        fancy: false,
        empty_dirs: true,
    });
    let mut img = g.disc.render();
    let iso = c.scratch.join("i.iso");
    let kind = g.parts[0].part.kind as usize;
    let name = NAMES[kind];
    let dest = c.scratch.join("o");
    let mut runs: Vec<(String, Output)> = vec![];
    h(fs::write(&iso, &img))?;
    let bad = c.rng.pick(&["", "DAT", "DATAA", "DATA ", "GAME", "0", "UPDATE,DATA", "ＤＡＴＡ"]).to_string();
    // or something close to a section the image does have
    let bad = match c.rng.below(6) {
        0 | 1 => name[..1 + c.rng.below(name.len() as u64 - 1) as usize].to_string(),
        2 => format!("{}{name}", c.rng.pick(&[" ", "/", "\t", "x"])),
        3 => format!("{name}{}", c.rng.pick(&["\n", "/", "S", "0", "."])),
        _ => bad,
    };
    runs.push((format!("print-files --section {bad:?}"), run!(c, "print-files", iso, "--section", bad)?));
    runs.push((format!("extract-sys --section {bad:?}"), run!(c, "extract-sys", iso, dest, "--section", bad)?));
    let none = c.scratch.join("missing");
    runs.push(("sections of a missing file".into(), run!(c, "sections", none)?));
    runs.push(("print-files of a missing file".into(), run!(c, "print-files", none)?));
    runs.push(("rebuild of a missing directory".into(), run!(c, "rebuild", none, c.scratch.join("x.iso"))?));
    // destination that cannot be created
    let blocked = c.scratch.join("blocked");
    h(fs::write(&blocked, b"a file"))?;
    runs.push((
        "extract-sys below a file".into(),
        run!(c, "extract-sys", iso, blocked.join("sub"), "--section", name)?,
    ));
    // destinations that take nothing, or only so many bytes
    let full = Path::new("/dev/full");
    let s0 = scenario(&mut c.rng, 11, dir_opts(false));
    let good = c.scratch.join("good src");
    h(write_dir(&mut c.rng, &good, &s0.sys, &s0.tree, &s0.files))?;
    if full.exists() {
        runs.push(("rebuild to /dev/full".into(), run!(c, "rebuild", good, full)?));
    }
    let kb = c.rng.range(0, 1800);
    let limited = |c: &mut Case, kb: u64, args: &[&std::ffi::OsStr]| -> Result<Output, String> {
        let exe = std::env::var_os("MON_ISO_TOOL").ok_or("HARNESS: MON_ISO_TOOL not set")?;
        c.st.add("commands run", 1);
        let mut k = Command::new("/bin/bash");
        k.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {kb} || exit 1; exec \"$@\"")).arg("x").arg(exe).args(args);
        h(k.current_dir(c.scratch).stdin(Stdio::null()).env("RUST_BACKTRACE", "0").output())
    };
    let to = c.scratch.join("limited.iso");
    runs.push((
        format!("rebuild to a file limited to {kb} KiB"),
        limited(c, kb, &["rebuild".as_ref(), good.as_os_str(), to.as_os_str()])?,
    ));
    // the largest system file does not fit
    let y = &g.parts[0].sys;
    let longest = y.dol.len().max(y.apploader.len()).max(0x2000) as u64;
    let kb = c.rng.range(0, (longest - 1) / 1024);
    runs.push((
        format!("extract-sys with files limited to {kb} KiB"),
        limited(c, kb, &["extract-sys".as_ref(), iso.as_os_str(), c.scratch.join("lim").as_os_str(), "--section".as_ref(), name.as_ref()])?,
    ));
    // damaged images
    match c.rng.below(4) {
        0 => img.truncate(c.rng.below(0x4E020) as usize),
        1 => {
            put32(&mut img, 0x40000, 1);
            put32(&mut img, 0x40004, 0x40020 >> 2);
            put32(&mut img, 0x40024, 77);
        }
        2 => put32(&mut img, 0x40000, 0xffff_ffff),
        _ => img.clear(),
    }
    h(fs::write(&iso, &img))?;
    runs.push(("sections of a damaged image".into(), run!(c, "sections", iso)?));
    runs.push(("print-files of a damaged image".into(), run!(c, "print-files", iso, "--section", name)?));
    runs.push(("extract-sys of a damaged image".into(), run!(c, "extract-sys", iso, dest, "--section", name)?));
    // the partition header is destroyed: still listed, cannot be opened
    let mut img = g.disc.render();
    let off = g.parts[0].part.off as usize;
    img.truncate(off + 0x100);
    h(fs::write(&iso, &img))?;
    runs.push(("print-files of a cut partition".into(), run!(c, "print-files", iso, "--section", name)?));
    runs.push(("extract-sys of a cut partition".into(), run!(c, "extract-sys", iso, dest, "--section", name)?));
    // a directory that cannot be built
    let s = scenario(&mut c.rng, 11, dir_opts(false));
    let root = c.scratch.join("src");
    h(write_dir(&mut c.rng, &root, &s.sys, &s.tree, &s.files))?;
    let victim = *c.rng.pick(&["sys/boot.bin", "ticket.bin", "sys/main.dol", "sys/apploader.img", "sys/bi2.bin", "tmd.bin", "cert.bin", "disc/region.bin"]);
    h(fs::remove_file(root.join("DATA").join(victim)))?;
    runs.push((format!("rebuild without {victim}"), run!(c, "rebuild", root, c.scratch.join("y.iso"))?));
    for (what, o) in runs {
        if o.status.success() {
            return Err(format!("{what}: exit status 0"));
        }
        c.st.add("refusals", 1);
        c.st.distinct(hash_bytes(what.as_bytes()) ^ mix(c.idx));
    }
    Ok(())
}
