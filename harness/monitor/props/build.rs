//! C01..C06, C16: what the builder puts into an image.

use crate::gen;
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, Rng};
use crate::runner::*;
use crate::scen::*;
use disc_riider::builder::{PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::DiscHeader;
use disc_riider::WiiIsoReader;
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Cursor, Read, Seek, SeekFrom};

pub fn dir_opts(thorough: bool) -> ScenOpts {
    ScenOpts {
        dir: true,
        big: true,
        max_nodes: if thorough { 120 } else { 50 },
        budget: if thorough { 12_000_000 } else { 3_000_000 },
    }
}

pub fn def_opts(thorough: bool) -> ScenOpts {
    ScenOpts {
        dir: false,
        ..dir_opts(thorough)
    }
}

fn harness_io<T>(r: std::io::Result<T>) -> Result<T, String> {
    r.map_err(|e| format!("HARNESS: {e}"))
}

/// the single DATA partition of a build, taken apart without judging hashes
fn first_view(img: &[u8], strict: bool) -> Result<PartView, String> {
    let l = list_parts(img)?;
    let (k, o) = *l.first().ok_or("the image lists no partition")?;
    open_part_opt(img, k, o, strict)
}

fn count_build(c: &mut Case, s: &Scen, img: &[u8]) {
    c.st.add("builds", 1);
    c.st.add("files", s.files.len() as u64);
    c.st.add("file_bytes", s.total());
    c.st.max("max_groups", (img.len().saturating_sub(0x70000) / GRP) as u64);
    c.st.max("max_depth", tree_depth(&s.tree) as u64);
    if !s.files.is_empty() {
        c.st.distinct(s.signature());
    }
    c.st.add(s.label, 1);
    let d = s.describe();
    c.st.sample(|| d);
}

// ---------------------------------------------------------------------------------------------

pub const C01: Prop = Prop {
    id: "C01",
    run: c01,
    quick: 4000,
    thorough: 100000,
    rule: "a case is one source directory (directed boundary scenarios first, then random) created on disk, built, and read back both through the library and through the reference decoder; non-trivial = at least one file; distinct by names, sizes and system file sizes",
    need: &[("files", 500), ("builds", 50), ("max_groups", 3), ("limit builds", 1)],
};

fn c01(c: &mut Case) -> Res {
    if c.idx == 40 || c.thorough && c.idx % 5000 == 40 {
        return far_dir(c);
    }
    let s = pick_scenario(&mut c.rng, c.idx, dir_opts(c.thorough));
    let root = c.scratch.join("src");
    harness_io(write_dir(&mut c.rng, &root, &s.sys, &s.tree, &s.files))?;
    // symbolic links count as what they point to
    if c.rng.chance(1, 12) {
        if let Some((p, d)) = s.files.iter().next() {
            let mut fp = root.join("DATA/files");
            for n in p {
                fp.push(n);
            }
            let t = c.scratch.join("linked");
            harness_io(std::fs::write(&t, d))?;
            harness_io(std::fs::remove_file(&fp))?;
            harness_io(std::os::unix::fs::symlink(&t, &fp))?;
            c.st.add("symlinks", 1);
        }
    }
    if c.rng.chance(1, 12) {
        let inner: Vec<std::path::PathBuf> = tree_nodes(&s.tree)
            .into_iter()
            .filter(|n| n.1)
            .map(|n| root.join("DATA/files").join(n.0.join("/")))
            .collect();
        let whole = ["DATA", "DATA/files", "DATA/sys", "DATA/disc", "DATA/sys/main.dol", "DATA/sys/boot.bin", "DATA/tmd.bin"];
        let fp = if inner.is_empty() || c.rng.chance(1, 3) { root.join(c.rng.pick(&whole)) } else { c.rng.pick(&inner).clone() };
        let t = c.scratch.join("linked dir");
        harness_io(std::fs::rename(&fp, &t))?;
        harness_io(std::os::unix::fs::symlink(&t, &fp))?;
        c.st.add("symlinked directories and system files", 1);
    }
    let img = build_dir_mem(&root).map_err(|e| format!("well-formed directory refused: {e} ({})", s.describe()))?;
    count_build(c, &s, &img);
    check_readback(&img, &s, &mut c.rng).map_err(|e| format!("{e} ({})", s.describe()))
}

/// the DATA partition holds exactly the scenario's files, via library and reference
pub fn check_readback(img: &[u8], s: &Scen, rng: &mut Rng) -> Res {
    let want = sorted_pruned(&s.tree);
    let mut r = WiiIsoReader::open(Cursor::new(img)).map_err(|e| format!("built image does not open: {e}"))?;
    let e = r
        .partitions()
        .iter()
        .find(|p| kind_no(p.get_type()) == 0)
        .cloned()
        .ok_or("no DATA partition listed")?;
    let mut p = r.open_partition(e).map_err(|e| format!("built partition does not open: {e}"))?;
    let got = from_fst(p.get_fst());
    same_shape(&prune(&got), &want, "library")?;
    if !is_sorted(&got) {
        return Err("image directory not in case-insensitive ASCII order".into());
    }
    let mut files = tree_files(&got);
    if rng.chance(1, 2) {
        rng.shuffle(&mut files);
    }
    let mut buf = vec![];
    for (path, off, len) in &files {
        let want = &s.files[path];
        if *len as usize != want.len() {
            return Err(format!("{}: listed length {len} instead of {}", pathstr(path), want.len()));
        }
        match rng.below(3) {
            0 => {
                p.get_crypto_reader(&mut r)
                    .read_into_vec(*off, *len as u64, &mut buf)
                    .map_err(|e| format!("{}: {e}", pathstr(path)))?;
            }
            1 => {
                buf.clear();
                let mut f = p
                    .open_file(&mut r, &pathstr(path))
                    .ok_or_else(|| format!("{}: cannot be opened by path", pathstr(path)))?;
                f.read_to_end(&mut buf).map_err(|e| format!("{}: {e}", pathstr(path)))?;
            }
            _ => {
                buf.clear();
                let mut rd = p.get_crypto_reader(&mut r);
                rd.seek(SeekFrom::Start(*off)).map_err(|e| e.to_string())?;
                rd.take(*len as u64)
                    .read_to_end(&mut buf)
                    .map_err(|e| format!("{}: {e}", pathstr(path)))?;
            }
        }
        expect_eq(&format!("library reads {}", pathstr(path)), &buf, want)?;
    }
    let l = list_parts(img)?;
    let (k, o) = *l.iter().find(|x| x.0 == 0).ok_or("no DATA partition in the table")?;
    let v = open_part_opt(img, k, o, false)?;
    same_shape(&prune(&v.fst), &want, "reference")?;
    for (path, off, len) in tree_files(&v.fst) {
        expect_eq(&format!("decoded {}", pathstr(&path)), v.file(off, len)?, &s.files[&path])?;
    }
    Ok(())
}

/// same names, kinds, nesting and order
pub fn same_shape(got: &[RNode], want: &[RNode], who: &str) -> Res {
    let (g, w) = (tree_nodes(got), tree_nodes(want));
    if g == w {
        return Ok(());
    }
    for (a, b) in g.iter().zip(&w) {
        if a != b {
            return Err(format!("{who}: tree lists {a:?} where {b:?} is expected"));
        }
    }
    Err(format!(
        "{who}: tree has {} nodes instead of {}; {:?}",
        g.len(),
        w.len(),
        g.get(w.len()).or(w.get(g.len()))
    ))
}

// ---------------------------------------------------------------------------------------------

pub const C02: Prop = Prop {
    id: "C02",
    run: c02,
    quick: 6000,
    thorough: 150000,
    rule: "a case is one partition definition (tree in any order, random placeholder offsets and lengths, random paddings) built and decoded by the reference; every request to the definition is recorded; distinct by tree, sizes and paddings",
    need: &[("requests", 2000), ("paddings", 200), ("unsorted trees", 20), ("limit builds", 1), ("files beyond 4 GiB", 6), ("over-long bi2 refused", 20)],
};

/// shuffles sibling order and introduces names that differ only in case
fn scramble(rng: &mut Rng, t: &mut Vec<RNode>, cases: bool) {
    rng.shuffle(t);
    if cases && t.len() >= 2 && rng.chance(1, 3) {
        let n = t[0].name().to_string();
        let flipped: String = n
            .chars()
            .map(|c| {
                if c.is_ascii_lowercase() {
                    c.to_ascii_uppercase()
                } else {
                    c.to_ascii_lowercase()
                }
            })
            .collect();
        if !t.iter().any(|x| x.name() == flipped) {
            let i = rng.range(1, t.len() as u64 - 1) as usize;
            match &mut t[i] {
                RNode::File { name, .. } | RNode::Dir { name, .. } => *name = flipped,
            }
        }
    }
    // names no file system has, but a file table can hold
    if cases && !t.is_empty() && rng.chance(1, 5) {
        let odd = *rng.pick(&["", "/", "a/b", "x//y", "/lead", "trail/", ".", "..", "a\\b", "C:", " ", "\u{1}", "\n"]);
        if !t.iter().any(|x| x.name() == odd) {
            let i = rng.below(t.len() as u64) as usize;
            match &mut t[i] {
                RNode::File { name, .. } | RNode::Dir { name, .. } => *name = odd.to_string(),
            }
        }
    }
    for n in t {
        if let RNode::Dir { kids, .. } = n {
            scramble(rng, kids, cases)
        }
    }
}

fn c02(c: &mut Case) -> Res {
    if c.idx == 40 || c.thorough && c.idx % 5000 == 40 {
        return too_long_file(c);
    }
    if c.idx == 41 || c.thorough && c.idx % 5000 == 41 {
        return far_build(c, 0);
    }
    if c.idx == 42 || c.thorough && c.idx % 5000 == 42 {
        return far_build(c, 2);
    }
    let mut s = pick_scenario(&mut c.rng, c.idx, def_opts(c.thorough));
    if c.rng.chance(1, 2) {
        // same contents under a scrambled tree
        let vals: Vec<Vec<u8>> = s.files.values().cloned().collect();
        scramble(&mut c.rng, &mut s.tree, true);
        s.files = tree_files(&s.tree)
            .into_iter()
            .map(|f| f.0)
            .zip(vals.into_iter().chain(std::iter::repeat(vec![])))
            .collect();
        c.st.add("unsorted trees", 1);
    }
    let mut t = s.tree.clone();
    let style = c.rng.below(4);
    let mut pr = c.rng.fork();
    for_each_file_mut(&mut t, &mut |p, o, l| match style {
        0 => {}
        1 => *l = s.files[p].len() as u32,
        2 => {
            *o = pr.next() >> 20;
            *l = pr.next() as u32;
        }
        _ => {
            *o = pr.below(1 << 34);
            *l = *pr.pick(&[0, 1, u32::MAX, 0x8000_0000]);
        }
    });
    let mut def = Def::new(&s.sys, &t, &s.files);
    let mut padsum = 0u64;
    if c.rng.chance(2, 3) {
        for p in s.files.keys() {
            if c.rng.chance(1, 2) {
                let mut n = *c.rng.pick(&[0u32, 1, 31, 63, 64, 65, 127, 128, 1000, 0x7c00, 0x1f0000]);
                if padsum + n as u64 > 6_000_000 {
                    n &= 0xff;
                }
                padsum += n as u64;
                def.pads.insert(p.clone(), n);
                c.st.add("paddings", 1);
            }
        }
    }
    let kind = c.rng.below(3) as u32;
    let mut out = Cursor::new(vec![]);
    let label = s.describe();
    if c.idx % 20 == 13 {
        // there is room for 0x2000 bytes in front of the apploader
        let mut y = s.sys.clone();
        let n = 0x2000 + if c.rng.chance(1, 2) { c.rng.range(1, 0x40) } else { c.rng.range(1, 0x5000) } as usize;
        y.bi2 = c.rng.bytes(n);
        let mut long = Def::new(&y, &t, &s.files);
        if build_def(&mut Cursor::new(vec![]), kind, &mut long, &mut |_| ()).is_ok() {
            return Err(format!("bi2 of {n:#x} bytes accepted ({label})"));
        }
        c.st.add("over-long bi2 refused", 1);
    }
    build_def(&mut out, kind, &mut def, &mut |_| ()).map_err(|e| format!("definition refused: {e} ({label})"))?;
    let img = out.into_inner();
    count_build(c, &s, &img);
    c.st.add("requests", def.calls.len() as u64);
    let v = first_view(&img, false)?;
    // requests
    let mut seen = BTreeSet::new();
    for p in &def.calls {
        if !seen.insert(p.clone()) {
            return Err(format!("{} requested more than once", pathstr(p)));
        }
    }
    for p in s.files.keys() {
        if !seen.contains(p) {
            return Err(format!("{} never requested", pathstr(p)));
        }
    }
    same_shape(&v.fst, &s.tree, "reference")?;
    // extents
    let mut ext: Vec<(u64, u64, String)> = vec![
        (0, HDR_LEN as u64, "header".into()),
        (0x440, 0x440 + s.sys.bi2.len() as u64, "bi2".into()),
        (0x2440, 0x2440 + s.sys.apploader.len() as u64, "apploader".into()),
        (v.dol_off, v.dol_off + s.sys.dol.len() as u64, "DOL".into()),
        (v.fst_off, v.fst_off + v.fst_used as u64, "file table".into()),
    ];
    for (path, off, len) in tree_files(&v.fst) {
        let name = pathstr(&path);
        let want = &s.files[&path];
        if len as usize != want.len() {
            return Err(format!("{name}: stored length {len}, supplied {}", want.len()));
        }
        expect_eq(&format!("stored {name}"), v.file(off, len)?, want)?;
        if off % 64 != 0 {
            return Err(format!("{name}: offset {off:#x} is not 64-byte aligned"));
        }
        let pad = def.pads.get(&path).copied().unwrap_or(0);
        let tail = v
            .plain
            .get((off + len as u64) as usize..(off + len as u64 + pad as u64) as usize)
            .ok_or_else(|| format!("{name}: its {pad} padding bytes lie outside the data"))?;
        if tail.iter().any(|b| *b != 0) {
            return Err(format!("{name}: padding of {pad} bytes is not zero"));
        }
        ext.push((off, off + len as u64 + pad as u64, name));
    }
    ext.retain(|e| e.1 > e.0);
    ext.sort();
    for w in ext.windows(2) {
        if w[1].0 < w[0].1 {
            return Err(format!(
                "{} ({:#x}..{:#x}, padding included) overlaps {} ({:#x}..)",
                w[0].2, w[0].0, w[0].1, w[1].2, w[1].0
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C03: Prop = Prop {
    id: "C03",
    run: c03,
    quick: 8000,
    thorough: 200000,
    rule: "a case is one build (from a directory or a definition) with random system files in many section layouts; every item is compared at its on-disc place by the reference and through the library's accessors; distinct by the system files' bytes",
    need: &[("directory builds", 50), ("definition builds", 50), ("library accessors", 500), ("large system files", 20)],
};

fn c03(c: &mut Case) -> Res {
    let mut s = if c.idx % 3 == 0 {
        pick_scenario(&mut c.rng, c.idx / 3, dir_opts(false))
    } else {
        scenario(&mut c.rng, 1, dir_opts(false))
    };
    // system files far larger than usual
    if c.idx % 160 == 7 {
        let mut big = |r: &mut Rng| match r.below(6) {
            0 => r.range(0x1000, 0x8000),
            1 => r.range(0x1_0000, 0x4_0000),
            2 => 0x1f_0000 * r.range(1, 3) - r.range(0, 0x4000),
            3 => r.range(0x20_0000, 0x60_0000),
            4 => *r.pick(&[0xff_ffff, 0x100_0000, 0x100_0001]),
            _ => r.range(0x100_0000, 0x140_0000),
        } as usize;
        let (a, d) = (big(&mut c.rng), big(&mut c.rng));
        s.sys.apploader = gen::apploader(&mut c.rng, a);
        s.sys.dol = gen::dol(&mut c.rng, d);
        c.st.add("large system files", 1);
    }
    // system files of awkward sizes
    let extra = if c.rng.chance(1, 4) {
        let n = c.rng.range(1, 100) as usize;
        let e = c.rng.bytes(n);
        s.sys.dol.extend(&e);
        n
    } else {
        0
    };
    let from_dir = c.idx % 2 == 0;
    let mut kind = 0;
    let img;
    if from_dir {
        let root = c.scratch.join("src");
        harness_io(write_dir(&mut c.rng, &root, &s.sys, &s.tree, &s.files))?;
        img = build_dir_mem(&root).map_err(|e| format!("directory refused: {e}"))?;
        c.st.add("directory builds", 1);
    } else {
        kind = c.rng.below(3) as u32;
        let mut def = Def::new(&s.sys, &s.tree, &s.files);
        let mut out = Cursor::new(vec![]);
        build_def(&mut out, kind, &mut def, &mut |_| ()).map_err(|e| format!("definition refused: {e}"))?;
        img = out.into_inner();
        c.st.add("definition builds", 1);
    }
    c.st.distinct(hash_bytes(&s.sys.header) ^ hash_bytes(&s.sys.dol) ^ hash_bytes(&s.sys.tmd));
    let d = s.describe();
    c.st.sample(|| d);
    let y = &s.sys;
    // reference side
    let mut want_hdr = y.header.clone();
    if from_dir {
        want_hdr[0x60] = 0;
        want_hdr[0x61] = 0;
    }
    expect_eq("disc header", &img[..HDR_LEN], &want_hdr)?;
    expect_eq("region block", &img[0x4E000..0x4E020], &y.region)?;
    let v = first_view(&img, false)?;
    expect_eq("ticket", &ticket_defined(&v.ticket), &ticket_defined(&y.ticket))?;
    expect_eq("stored title key", &v.ticket[0x1BF..0x1CF], &y.ticket[0x1BF..0x1CF])?;
    if v.tmd.len() < y.tmd.len() {
        return Err(format!("stored TMD has {} bytes instead of {}", v.tmd.len(), y.tmd.len()));
    }
    expect_eq("TMD", &tmd_carried(&v.tmd[..y.tmd.len()]), &tmd_carried(&y.tmd))?;
    expect_eq("certificates", v.certs.get(..y.certs.len()).unwrap_or(&v.certs), &y.certs)?;
    expect_eq(
        "partition's disc header",
        &gen::header_without_layout(&v.boot),
        &gen::header_without_layout(&y.header),
    )?;
    let at = |o: u64, n: usize, what: &str| {
        v.plain
            .get(o as usize..o as usize + n)
            .ok_or_else(|| format!("{what} outside the data"))
    };
    expect_eq("bi2", at(0x440, y.bi2.len(), "bi2")?, &y.bi2)?;
    expect_eq("apploader", at(0x2440, y.apploader.len(), "apploader")?, &y.apploader)?;
    expect_eq("DOL", at(v.dol_off, y.dol.len(), "DOL")?, &y.dol)?;
    // library side
    let mut r = WiiIsoReader::open(Cursor::new(&img[..])).map_err(|e| format!("image does not open: {e}"))?;
    expect_eq("disc header via library", &header_bytes(r.get_header()), &want_hdr)?;
    expect_eq("region via library", r.get_region(), &y.region)?;
    let e = r
        .partitions()
        .iter()
        .find(|p| kind_no(p.get_type()) == kind)
        .cloned()
        .ok_or("partition not listed")?;
    let mut p = r.open_partition(e).map_err(|e| format!("partition does not open: {e}"))?;
    expect_eq(
        "partition header via library",
        &gen::header_without_layout(&header_bytes(p.get_encrypted_header())),
        &gen::header_without_layout(&y.header),
    )?;
    let t = &p.get_partition_header().ticket;
    expect_eq("ticket via library", &ticket_bytes(t), &ticket_defined(&y.ticket))?;
    expect_eq("title key via library", &t.title_key, &ticket_key(&y.ticket).unwrap())?;
    let tmd = p.read_tmd(&mut r).map_err(|e| format!("read_tmd: {e}"))?;
    expect_eq("TMD via library", &tmd_carried(&tmd_bytes(&tmd)), &tmd_carried(&y.tmd))?;
    let certs = p.read_certificates(&mut r).map_err(|e| format!("read_certificates: {e}"))?;
    expect_eq("certificates via library", &certs_bytes(&certs), &y.certs)?;
    let b = p.read_bi2(&mut r).map_err(|e| format!("read_bi2: {e}"))?;
    if b.len() != 0x2000 {
        return Err(format!("read_bi2 returned {} bytes", b.len()));
    }
    expect_eq("bi2 via library", &b[..y.bi2.len()], &y.bi2)?;
    let a = p.read_apploader(&mut r).map_err(|e| format!("read_apploader: {e}"))?;
    expect_eq("apploader via library", &a, &y.apploader)?;
    let d = p.read_dol(&mut r).map_err(|e| format!("read_dol: {e}"))?;
    expect_eq("DOL via library", &d, &y.dol[..y.dol.len() - extra])?;
    c.st.add("library accessors", 9);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C04: Prop = Prop {
    id: "C04",
    run: c04,
    quick: 4500,
    thorough: 110000,
    rule: "a case is one build with one or two partitions into an empty or dirty destination; every group of every partition is decrypted and its whole hash tree recomputed by the reference; distinct by content; non-trivial = at least one file",
    need: &[("groups verified", 800), ("max_groups", 3), ("two-partition images", 20)],
};

fn dirty(rng: &mut Rng) -> Vec<u8> {
    match rng.below(3) {
        0 => vec![],
        1 => {
            let n = rng.range(1, 6 << 20) as usize;
            rng.bytes(n)
        }
        _ => vec![0xff; 0x260000],
    }
}

fn c04(c: &mut Case) -> Res {
    if c.idx == 40 || c.thorough && c.idx % 5000 == 40 {
        return far_build(c, 1);
    }
    let two = c.idx % 5 == 4;
    let s = pick_scenario(&mut c.rng, c.idx, def_opts(c.thorough));
    let s2 = if two { Some(pick_scenario(&mut c.rng, 1000, def_opts(false))) } else { None };
    let pre = if c.rng.chance(1, 3) { dirty(&mut c.rng) } else { vec![] };
    let mut out = Cursor::new(pre);
    let h = parse_header(&s.sys.header).map_err(|e| format!("header rejected: {e}"))?;
    let mut b = WiiDiscBuilder::create(&mut out, h, s.sys.region);
    for (i, s) in std::iter::once(&s).chain(s2.iter()).enumerate() {
        let mut def = Def::new(&s.sys, &s.tree, &s.files);
        if c.rng.chance(1, 3) {
            for p in s.files.keys().take(20) {
                def.pads.insert(p.clone(), c.rng.below(0x9000) as u32);
            }
        }
        add_def(&mut b, i as u32, &mut def, &mut |_| ())?;
    }
    b.finish().map_err(|e| format!("finish: {e}"))?;
    drop(b);
    let img = out.into_inner();
    count_build(c, &s, &img);
    let l = list_parts(&img)?;
    if l.len() != 1 + two as usize {
        return Err(format!("{} partitions listed", l.len()));
    }
    if two {
        c.st.add("two-partition images", 1);
    }
    for (kind, off) in l {
        verify_hashes(&img, off, c.st).map_err(|e| format!("partition {kind} at {off:#x}: {e} ({})", s.describe()))?;
    }
    Ok(())
}

/// H0..H3 of every group, number of groups taken from where the files and tables really are
pub fn verify_hashes(img: &[u8], off: u64, st: &mut Stats) -> Res {
    let v = open_part_opt(img, 0, off, false)?;
    let mut end = v.fst_off + v.fst_size;
    for (_, o, l) in tree_files(&v.fst) {
        end = end.max(o + l as u64);
    }
    let need = (end as usize).div_ceil(GRPD);
    let groups = need.max((v.data_size as usize).div_ceil(GRPD));
    for g in 0..groups {
        let o = (off + v.data_off) as usize + g * GRP;
        let enc = img.get(o..o + GRP).ok_or_else(|| format!("group {g} of {groups} is missing"))?;
        verify_group(enc, &v.key, &v.h3[g * 20..g * 20 + 20]).map_err(|e| format!("group {g} of {groups}: {e}"))?;
        st.add("groups verified", 1);
    }
    if v.h3[groups * 20..].iter().any(|b| *b != 0) {
        return Err(format!("H3 table has entries beyond its {groups} groups"));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C05: Prop = Prop {
    id: "C05",
    run: c05,
    quick: 6000,
    thorough: 150000,
    rule: "a case is one build with a random TMD (0 to thousands of contents, biased to the largest that fits) and certificate chain; header, TMD, H3 and data regions are checked against the bytes stored there; distinct by TMD and content sizes",
    need: &[("described partitions", 300), ("refused", 10), ("large TMDs stored", 10), ("limit builds", 3)],
};

fn c05(c: &mut Case) -> Res {
    if c.idx == 21 || c.idx == 22 {
        return group_limit(c, c.idx == 22);
    }
    if c.idx == 20 || c.thorough && c.idx % 5000 == 20 {
        return far_build(c, 1);
    }
    let mut s = pick_scenario(&mut c.rng, 14 + c.idx, def_opts(false));
    if c.idx < KINDS || c.idx == 16 {
        let k = if c.idx == 16 { 13 } else { c.idx };
        s = scenario(&mut c.rng, k, def_opts(false));
    }
    let room = (0x8000 - 0x2C0 - 0x1E4 - s.sys.certs.len()) / 36;
    let room = if (0x2C0usize + 0x1E4 + 36 * room).next_multiple_of(0x20) + s.sys.certs.len() > 0x8000 { room - 1 } else { room };
    let (n, must) = match c.rng.below(8) {
        0 => (0, Some(false)),
        1 => (room - c.rng.below(3) as usize, Some(true)),
        2 => (room + 1 + c.rng.below(12) as usize, None),
        3 => (*c.rng.pick(&[1000usize, 3640, 5000, 65535]), None),
        _ => (*c.rng.pick(&[1usize, 1, 2, 3, 40, 200]), Some(true)),
    };
    s.sys.tmd = gen::tmd(&mut c.rng, n);
    let two = c.rng.chance(1, 3);
    let h = parse_header(&s.sys.header).map_err(|e| format!("header rejected: {e}"))?;
    let mut out = Cursor::new(if c.rng.chance(1, 4) { dirty(&mut c.rng) } else { vec![] });
    let mut b = WiiDiscBuilder::create(&mut out, h, s.sys.region);
    let mut res = vec![];
    for i in 0..1 + two as usize {
        let mut def = Def::new(&s.sys, &s.tree, &s.files);
        let r = catch(|| add_def(&mut b, i as u32, &mut def, &mut |_| ()))
            .map_err(|p| format!("TMD with {n} contents: {p}"))?;
        res.push(r);
    }
    b.finish().map_err(|e| format!("finish: {e}"))?;
    drop(b);
    let img = out.into_inner();
    if let Err(e) = &res[0] {
        c.st.add("refused", 1);
        if must == Some(true) {
            return Err(format!("TMD with {n} contents refused: {e}"));
        }
        return Ok(());
    }
    if must == Some(false) {
        return Err(format!("TMD with {n} contents accepted although there is no first content to describe"));
    }
    c.st.distinct(hash_bytes(&s.sys.tmd) ^ s.signature());
    if n > 100 {
        c.st.add("large TMDs stored", 1);
    }
    let d = format!("{n} TMD contents; {}", s.describe());
    c.st.sample(|| d.clone());
    let l = list_parts(&img)?;
    for (i, (_, off)) in l.iter().enumerate() {
        c.st.add("described partitions", 1);
        let limit = l.get(i + 1).map(|x| x.1).unwrap_or(img.len() as u64);
        described(&img, *off, limit, &s).map_err(|e| format!("partition {i}: {e} ({d})"))?;
    }
    Ok(())
}

fn described(img: &[u8], off: u64, limit: u64, s: &Scen) -> Res {
    let v = open_part_opt(img, 0, off, false)?;
    if v.tmd.len() != s.sys.tmd.len() {
        return Err(format!("header gives the TMD {} bytes, it has {}", v.tmd.len(), s.sys.tmd.len()));
    }
    if v.certs.len() != s.sys.certs.len() {
        return Err(format!(
            "header gives the certificates {} bytes, they have {}",
            v.certs.len(),
            s.sys.certs.len()
        ));
    }
    expect_eq("bytes at the certificate offset", &v.certs, &s.sys.certs)?;
    expect_eq("bytes at the TMD offset", &tmd_carried(&v.tmd), &tmd_carried(&s.sys.tmd))?;
    if v.data_size == 0 || v.data_size as usize % GRPD != 0 {
        return Err(format!("data size {:#x} is not the size of whole groups", v.data_size));
    }
    let groups = v.data_size as usize / GRPD;
    let enc_len = (groups * GRP) as u64;
    let mut reg = vec![
        (0, PHDR_LEN as u64, "partition header"),
        (v.tmd_off, v.tmd_off + v.tmd.len() as u64, "TMD"),
        (v.cert_off, v.cert_off + v.certs.len() as u64, "certificates"),
        (v.h3_off, v.h3_off + H3_LEN as u64, "H3 table"),
        (v.data_off, v.data_off + enc_len, "data"),
    ];
    reg.sort();
    for w in reg.windows(2) {
        if w[1].0 < w[0].1 {
            return Err(format!("{} and {} overlap", w[0].2, w[1].2));
        }
    }
    if off + reg.last().unwrap().1 > limit {
        return Err(format!("{} reaches past the end of the partition", reg.last().unwrap().2));
    }
    // the stored H3 table really is the hash table of the stored groups
    for g in 0..groups {
        let o = (off + v.data_off) as usize + g * GRP;
        verify_group(&img[o..o + GRP], &v.key, &v.h3[g * 20..g * 20 + 20])
            .map_err(|e| format!("what the header calls H3 table does not describe group {g}: {e}"))?;
    }
    if v.h3[groups * 20..].iter().any(|b| *b != 0) {
        return Err(format!("H3 table describes more than the {groups} groups of the data size"));
    }
    expect_eq("TMD content hash", &v.tmd[0x1F4..0x208], &sha1(&v.h3))?;
    let cs = be64(&v.tmd, 0x1EC);
    if cs != v.data_size {
        return Err(format!("TMD content size {cs:#x}, data size {:#x}", v.data_size));
    }
    let mut end = v.fst_off + v.fst_used as u64;
    for (_, o, l) in tree_files(&v.fst) {
        end = end.max(o + l as u64);
    }
    if end > v.data_size {
        return Err(format!("data size {:#x} does not cover data up to {end:#x}", v.data_size));
    }
    if v.fst_size < v.fst_used as u64 {
        return Err(format!("file table size {:#x}, used {:#x}", v.fst_size, v.fst_used));
    }
    if v.tmd[4..0x104].iter().any(|b| *b != 0) {
        return Err("TMD signature is not zero".into());
    }
    if sha1(&v.tmd[0x140..])[0] != 0 {
        return Err("SHA-1 of the TMD's signed part does not start with a zero byte".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// limits of the format

/// destination that keeps the beginning and, if asked to, everything from `from` on,
/// for builds too large to hold in memory; the rest reads as zeros
struct Sink {
    head: Vec<u8>,
    from: u64,
    tail: Vec<u8>,
    pos: u64,
    end: u64,
}

const SINK_HEAD: usize = 8 << 20;

impl Sink {
    fn new(from: u64) -> Self {
        Sink { head: vec![0; SINK_HEAD], from, tail: vec![], pos: 0, end: 0 }
    }
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.pos < SINK_HEAD as u64 {
            let n = b.len().min(SINK_HEAD - self.pos as usize);
            self.head[self.pos as usize..][..n].copy_from_slice(&b[..n]);
        }
        let end = self.pos + b.len() as u64;
        if end > self.from {
            let skip = self.from.saturating_sub(self.pos) as usize;
            let at = (self.pos + skip as u64 - self.from) as usize;
            let b = &b[skip..];
            if self.tail.len() < at + b.len() {
                self.tail.resize(at + b.len(), 0);
            }
            self.tail[at..at + b.len()].copy_from_slice(b);
        }
        self.pos = end;
        self.end = self.end.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Read for Sink {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.end.saturating_sub(self.pos)) as usize;
        let (src, at) = if self.pos < SINK_HEAD as u64 {
            (&self.head[..], self.pos)
        } else if self.pos >= self.from {
            (&self.tail[..], self.pos - self.from)
        } else {
            let n = (n as u64).min(self.from - self.pos) as usize;
            b[..n].fill(0);
            self.pos += n as u64;
            return Ok(n);
        };
        let src = &src[(at as usize).min(src.len())..];
        let n = n.min(src.len());
        b[..n].copy_from_slice(&src[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            SeekFrom::Start(o) => o,
            SeekFrom::Current(o) => self.pos.saturating_add_signed(o),
            SeekFrom::End(o) => self.end.saturating_add_signed(o),
        };
        Ok(self.pos)
    }
}

/// definition whose files are slices of one (never touched) zero buffer, some given
struct ZeroDef<'d> {
    sys: &'d gen::Sys,
    lens: &'d [u64],
    zeros: &'d [u8],
    given: &'d BTreeMap<usize, Vec<u8>>,
    pads: &'d BTreeMap<usize, u32>,
}

impl<'d> WiiPartitionDefinition<DefErr> for ZeroDef<'d> {
    fn get_disc_header(&mut self) -> Result<DiscHeader, PartitionAddError<DefErr>> {
        Ok(parse_header(&self.sys.header)?)
    }
    fn get_bi2<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<DefErr>> {
        Ok(Cow::Borrowed(&self.sys.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<DefErr>> {
        Ok(Cow::Borrowed(&self.sys.apploader))
    }
    fn get_fst(&mut self) -> Result<disc_riider::Fst, PartitionAddError<DefErr>> {
        let t: Vec<RNode> = (0..self.lens.len())
            .map(|i| RNode::File { name: format!("{i:03}"), off: 0, len: 0 })
            .collect();
        Ok(to_fst(&t))
    }
    fn get_dol<'a>(&'a mut self) -> Result<Cow<'a, [u8]>, PartitionAddError<DefErr>> {
        Ok(Cow::Borrowed(&self.sys.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> Result<(Cow<'a, [u8]>, u32), PartitionAddError<DefErr>> {
        let i: usize = path[0].parse().unwrap();
        let b = match self.given.get(&i) {
            Some(b) => &b[..],
            None => &self.zeros[..self.lens[i] as usize],
        };
        Ok((Cow::Borrowed(b), self.pads.get(&i).copied().unwrap_or(0)))
    }
}

fn build_zero(c: &mut Case, sys: &gen::Sys, lens: &[u64]) -> Result<(Sink, Result<(), String>), String> {
    build_zero_then(c, sys, lens, &BTreeMap::new(), &BTreeMap::new(), u64::MAX, None)
}

fn build_zero_then(
    c: &mut Case,
    sys: &gen::Sys,
    lens: &[u64],
    given: &BTreeMap<usize, Vec<u8>>,
    pads: &BTreeMap<usize, u32>,
    keep: u64,
    second: Option<(u32, &Scen)>,
) -> Result<(Sink, Result<(), String>), String> {
    let zeros = vec![0u8; *lens.iter().max().unwrap_or(&0) as usize];
    let mut sink = Sink::new(keep);
    let h = parse_header(&sys.header).map_err(|e| format!("HARNESS: {e}"))?;
    let r = catch(|| {
        let mut b = WiiDiscBuilder::create(&mut sink, h, sys.region);
        let (t, m, ce) = (parse_ticket(&sys.ticket).unwrap(), parse_tmd(&sys.tmd).unwrap(), parse_certs(&sys.certs).unwrap());
        let mut d = ZeroDef { sys, lens, zeros: &zeros, given, pads };
        b.add_partition(kind_of(0), t, m, ce, &mut d, &mut |_| ()).map_err(|e| e.to_string())?;
        if let Some((kind, s)) = second {
            add_def(&mut b, kind, &mut Def::new(&s.sys, &s.tree, &s.files), &mut |_| ())?;
        }
        b.finish().map_err(|e| e.to_string())
    })?;
    c.st.add("limit builds", 1);
    Ok((sink, r))
}

/// a partition of more than 4 GiB: small files behind that point, and a second partition
fn far_build(c: &mut Case, style: u32) -> Res {
    let want_second = style == 1;
    const G: u64 = 1 << 30;
    let sys = gen::sys(&mut c.rng, None);
    let mut lens = vec![100, G, G, G, G, c.rng.range(0, 64 << 20)];
    if !want_second {
        // the longest file the format can hold
        lens = vec![100, u32::MAX as u64, c.rng.range(0, 64 << 20)];
    }
    let mut pads = BTreeMap::new();
    if style == 2 {
        // very long paddings instead of very long files
        lens = vec![100, 1000];
        pads.insert(0, *c.rng.pick(&[u32::MAX, 0xFFFF_FFC0, 0xFFFF_FF00]));
        pads.insert(1, c.rng.range(20 << 20, 40 << 20) as u32);
    }
    let mut given = BTreeMap::new();
    given.insert(0, c.rng.bytes(100));
    if style == 2 {
        given.insert(1, c.rng.bytes(1000));
    }
    for _ in 0..3 {
        let n = *c.rng.pick(&[1usize, 1000, 0x7c00, 0x1f0000, 0x3f0001]);
        given.insert(lens.len(), c.rng.bytes(n));
        lens.push(n as u64);
    }
    let s2 = want_second.then(|| {
        let o = ScenOpts { big: false, max_nodes: 15, budget: 2_500_000, dir: false };
        (c.rng.below(3) as u32, scenario(&mut c.rng, 12, o))
    });
    let (sink, r) = build_zero_then(c, &sys, &lens, &given, &pads, 4 * G, s2.as_ref().map(|x| (x.0, &x.1)))?;
    let what = format!("files of {lens:x?} bytes, paddings {pads:x?}{}", if want_second { ", then another partition" } else { "" });
    r.map_err(|e| format!("refused: {e} ({what})"))?;
    far_verify(c, &sys, sink, &lens, &given, &pads, s2.as_ref()).map_err(|e| format!("{e} ({what})"))
}

fn far_verify(
    c: &mut Case,
    sys: &gen::Sys,
    mut sink: Sink,
    lens: &[u64],
    given: &BTreeMap<usize, Vec<u8>>,
    pads: &BTreeMap<usize, u32>,
    second: Option<&(u32, Scen)>,
) -> Res {
    let l = list_parts(&sink.head)?;
    if l.len() != 1 + second.is_some() as usize {
        return Err(format!("{} partitions listed", l.len()));
    }
    let (tail, from) = (sink.tail.clone(), sink.from);
    let (off, key) = (l[0].1, ticket_key(&sys.ticket).unwrap());
    let data_off = (be32(&sink.head, off as usize + 0x2B8) as u64) << 2;
    let h3_off = (be32(&sink.head, off as usize + 0x2B4) as u64) << 2;
    let h3 = sink.head[(off + h3_off) as usize..][..H3_LEN].to_vec();
    let image = sink.end;
    {
        let mut r = WiiIsoReader::open(&mut sink).map_err(|e| format!("image does not open: {e}"))?;
        let lib: Vec<(u32, u64)> = r.partitions().iter().map(|p| (kind_no(p.get_type()), p.get_offset())).collect();
        if lib != l {
            return Err(format!("library lists {lib:x?}, table holds {l:x?}"));
        }
        let entries = r.partitions().to_vec();
        let mut p = r.open_partition(entries[0].clone()).map_err(|e| format!("partition does not open: {e}"))?;
        let files = tree_files(&from_fst(p.get_fst()));
        if files.len() != lens.len() {
            return Err(format!("{} files listed", files.len()));
        }
        let mut end = 0;
        for (i, (path, o, len)) in files.iter().enumerate() {
            if *len as u64 != lens[i] {
                return Err(format!("{}: length {len:#x}", pathstr(path)));
            }
            if *o < end {
                return Err(format!("{}: at {o:#x}, the previous file (with its padding) ends at {end:#x}", pathstr(path)));
            }
            let data_end = o + *len as u64;
            end = data_end + pads.get(&i).copied().unwrap_or(0) as u64;
            let Some(want) = given.get(&i) else { continue };
            let mut b = vec![];
            p.open_file(&mut r, &pathstr(path))
                .ok_or("cannot be opened by path")?
                .read_to_end(&mut b)
                .map_err(|e| format!("{}: {e}", pathstr(path)))?;
            expect_eq(&format!("library reads {} at {o:#x}", pathstr(path)), &b, want)?;
            if *o < 1 << 32 {
                continue;
            }
            c.st.add("files beyond 4 GiB", 1);
            // reference: the groups that hold it
            let (g0, g1) = (*o / GRPD as u64, (data_end - 1) / GRPD as u64);
            let mut plain = vec![];
            for g in g0..=g1 {
                let at = (off + data_off + g * GRP as u64 - from) as usize;
                let enc = tail.get(at..at + GRP).ok_or_else(|| format!("group {g} is missing"))?;
                plain.extend(
                    verify_group(enc, &key, &h3[g as usize * 20..g as usize * 20 + 20]).map_err(|e| format!("group {g}: {e}"))?,
                );
            }
            let a = (o - g0 * GRPD as u64) as usize;
            expect_eq(&format!("decoded {} at {o:#x}", pathstr(path)), &plain[a..a + want.len()], want)?;
        }
        let groups = end.div_ceil(GRPD as u64);
        let head = &p.get_partition_header();
        if *head.data_size != groups * GRPD as u64 {
            return Err(format!("data size {:#x} for {groups} groups", *head.data_size));
        }
        // groups that hold nothing but zeros all have the same hash tree
        let zero = zero_h3();
        let mut busy: BTreeSet<u64> = BTreeSet::new();
        for (i, (_, o, len)) in files.iter().enumerate() {
            if given.contains_key(&i) {
                busy.extend(*o / GRPD as u64..=(o + *len as u64) / GRPD as u64);
            }
        }
        for g in 0..H3_LEN / 20 {
            let e = &h3[g * 20..g * 20 + 20];
            if g as u64 >= groups {
                if e.iter().any(|b| *b != 0) {
                    return Err(format!("H3 entry {g} is used although there are {groups} groups"));
                }
            } else if g as u64 * GRPD as u64 > files[0].1 && !busy.contains(&(g as u64)) {
                expect_eq(&format!("H3 entry of group {g}, which holds only zeros"), e, &zero)?;
                c.st.add("groups verified", 1);
            }
        }
        let tmd = p.read_tmd(&mut r).map_err(|e| format!("read_tmd: {e}"))?;
        let tmd = tmd_bytes(&tmd);
        expect_eq("TMD content hash", &tmd[0x1F4..0x208], &sha1(&h3))?;
        if be64(&tmd, 0x1EC) != groups * GRPD as u64 {
            return Err(format!("TMD content size {:#x} for {groups} groups", be64(&tmd, 0x1EC)));
        }
        if tmd[4..0x104].iter().any(|b| *b != 0) || sha1(&tmd[0x140..])[0] != 0 {
            return Err("TMD is not fake-signed".into());
        }
        if let Some((kind, s)) = second {
            let (k, o) = l[1];
            if k != *kind {
                return Err(format!("second partition has type {k} instead of {kind}"));
            }
            if o < off + data_off + groups * GRP as u64 {
                return Err(format!("second partition at {o:#x} overlaps the first"));
            }
            if o < from {
                return Err(format!("second partition at {o:#x}"));
            }
            let v = open_part_opt(&tail, k, o - from, true)?;
            same_shape(&v.fst, &s.tree, "reference")?;
            for (path, o, len) in tree_files(&v.fst) {
                expect_eq(&format!("file {} of the second partition", pathstr(&path)), v.file(o, len)?, &s.files[&path])?;
            }
            let mut p = r.open_partition(entries[1].clone()).map_err(|e| format!("second partition does not open: {e}"))?;
            same_shape(&from_fst(p.get_fst()), &s.tree, "library")?;
            for (path, _, len) in tree_files(&from_fst(p.get_fst())) {
                let mut b = vec![];
                p.open_file(&mut r, &pathstr(&path))
                    .ok_or("cannot be opened by path")?
                    .read_to_end(&mut b)
                    .map_err(|e| format!("{}: {e}", pathstr(&path)))?;
                if len as usize != b.len() || b != s.files[&path] {
                    return Err(format!("{} of the second partition is read differently", pathstr(&path)));
                }
            }
            c.st.add("partitions beyond 4 GiB", 1);
        }
    }
    c.st.distinct(hash_bytes(&h3));
    c.st.sample(|| format!("image of {image:#x} bytes"));
    Ok(())
}

fn zero_h3() -> [u8; 20] {
    let mut h0 = [0u8; 0x26C];
    let z = sha1(&[0; 0x400]);
    (0..31).for_each(|j| h0[j * 20..j * 20 + 20].copy_from_slice(&z));
    let h1 = sha1(&h0).repeat(8);
    let h2 = sha1(&h1).repeat(8);
    sha1(&h2)
}

/// a file whose length does not fit the format's 32 bits
fn too_long_file(c: &mut Case) -> Res {
    let sys = gen::sys(&mut c.rng, None);
    let n = (1u64 << 32) + *c.rng.pick(&[0u64, 1, 64, 0x8000]);
    let (_, r) = build_zero(c, &sys, &[10, n, 20]).map_err(|e| format!("file of {n:#x} bytes: {e}"))?;
    match r {
        Err(_) => Ok(()),
        Ok(()) => Err(format!("a file of {n:#x} bytes was stored although its length cannot be")),
    }
}

/// a directory with the longest file the format can hold
fn far_dir(c: &mut Case) -> Res {
    let sys = gen::sys(&mut c.rng, None);
    let mut lens = vec![100, u32::MAX as u64, c.rng.range(0, 5 << 20)];
    let mut given = BTreeMap::new();
    given.insert(0, c.rng.bytes(100));
    for _ in 0..2 {
        let n = *c.rng.pick(&[1usize, 1000, 0x7c00, 0x1f0000, 0x3f0001]);
        given.insert(lens.len(), c.rng.bytes(n));
        lens.push(n as u64);
    }
    let root = c.scratch.join("src");
    harness_io(write_dir(&mut c.rng, &root, &sys, &[], &BTreeMap::new()))?;
    for (i, l) in lens.iter().enumerate() {
        let p = root.join(format!("DATA/files/{i:03}"));
        match given.get(&i) {
            Some(b) => harness_io(std::fs::write(&p, b))?,
            None => harness_io(std::fs::File::create(&p).and_then(|f| f.set_len(*l)))?,
        }
    }
    let mut sink = Sink::new(1 << 32);
    build_dir(&root, &mut sink, &mut |_| ()).map_err(|e| format!("files of {lens:x?} bytes refused: {e}"))?;
    c.st.add("limit builds", 1);
    far_verify(c, &sys, sink, &lens, &given, &BTreeMap::new(), None).map_err(|e| format!("{e} (directory with files of {lens:x?} bytes)"))
}

/// partitions at and beyond the number of groups the H3 table can describe
fn group_limit(c: &mut Case, beyond: bool) -> Res {
    let sys = gen::sys(&mut c.rng, None);
    let max = H3_LEN as u64 / 20;
    let (probe, r) = build_zero(c, &sys, &[0])?;
    r.map_err(|e| format!("build refused: {e}"))?;
    let view = first_view(&probe.head, false)?;
    let first = tree_files(&view.fst)[0].1;
    let part = 1u64 << 30;
    let lens = |total: u64| -> Vec<u64> {
        let n = total / part;
        (0..n).map(|_| part).chain([total - n * part]).collect()
    };
    // the file table of the probe has one file only, so leave some room
    let full = max * GRPD as u64 - first - 0x10000;
    if beyond {
        let more = *c.rng.pick(&[0x10040u64, GRPD as u64, 2 * GRPD as u64]);
        let (_, r) = build_zero(c, &sys, &lens(full + more)).map_err(|e| format!("more groups than H3 entries: {e}"))?;
        return match r {
            Err(_) => Ok(()),
            Ok(()) => Err("a partition with more groups than the H3 table can describe was built".into()),
        };
    }
    let mut l = lens(full - 0x2000);
    let mut given = BTreeMap::new();
    for n in [0x1000 + c.rng.below(64), 100] {
        given.insert(l.len(), c.rng.bytes(n as usize));
        l.push(n);
    }
    // and one more behind it
    let o = ScenOpts { big: false, max_nodes: 15, budget: 2_500_000, dir: false };
    let s2 = (c.rng.below(3) as u32, scenario(&mut c.rng, 12, o));
    let (sink, r) = build_zero_then(c, &sys, &l, &given, &BTreeMap::new(), 0x2_6000_0000, Some((s2.0, &s2.1))).map_err(|e| format!("{max} groups: {e}"))?;
    r.map_err(|e| format!("a partition of {max} groups, the most the H3 table can describe, was refused: {e}"))?;
    far_verify(c, &sys, sink, &l, &given, &BTreeMap::new(), Some(&s2)).map_err(|e| format!("{max} groups: {e}"))
}

// ---------------------------------------------------------------------------------------------

pub const C06: Prop = Prop {
    id: "C06",
    run: c06,
    quick: 3000,
    thorough: 70000,
    rule: "a case is one builder history: one to 45 partition additions, some made to fail at a random request, into an empty destination, random bytes or an older image; distinct by the sequence of outcomes and contents",
    need: &[("additions ok", 300), ("additions failed", 100), ("dirty destinations", 100), ("old images as destination", 30), ("partitions beyond 4 GiB", 1), ("histories of 6 to 45 additions", 5), ("images finished in between", 100)],
};

fn c06(c: &mut Case) -> Res {
    if c.idx == 0 || c.thorough && c.idx % 5000 == 0 {
        return far_build(c, 1);
    }
    // mostly a handful of partitions, sometimes many
    let many = c.idx % 40 == 1;
    let n = if many { c.rng.range(6, 45) as usize } else { c.rng.range(1, 5) as usize };
    if many {
        c.st.add("histories of 6 to 45 additions", 1);
    }
    let mut pre = vec![];
    match c.rng.below(4) {
        0 => {}
        1 => {
            pre = dirty(&mut c.rng);
            if pre.is_empty() {
                pre = c.rng.bytes(0x48000);
            }
            c.st.add("dirty destinations", 1);
        }
        _ => {
            let k = c.rng.range(1, 3) as usize;
            let d = gen::ref_disc(&mut c.rng, k, &mut |_, _| gen::PartParams {
                groups: 1,
                max_nodes: 10,
                sorted: true,
                fancy: false,
                empty_dirs: true,
            });
            pre = d.disc.render();
            c.st.add("dirty destinations", 1);
            c.st.add("old images as destination", 1);
        }
    }
    let hs = gen::sys(&mut c.rng, None);
    let h = parse_header(&hs.header).map_err(|e| format!("header rejected: {e}"))?;
    let mut out = Cursor::new(pre);
    let mut b = WiiDiscBuilder::create(&mut out, h, hs.region);
    let mut ok: Vec<(u32, Scen)> = vec![];
    let mut sig = String::new();
    for _ in 0..n {
        let mut s = {
            let o = ScenOpts {
                big: false,
                max_nodes: 15,
                budget: if many { 20_000 } else { 2_500_000 },
                dir: false,
            };
            let k = if many { *c.rng.pick(&[0u64, 1, 11, 12]) } else { *c.rng.pick(&[0u64, 1, 4, 5, 7, 11, 12, 12, 12, 12, 3]) };
            scenario(&mut c.rng, k, o)
        };
        let kind = c.rng.below(3) as u32;
        let mut fail = if many { c.rng.chance(1, 8) } else { c.rng.chance(2, 5) };
        if fail && c.rng.chance(1, 8) {
            s.sys.tmd = gen::tmd(&mut c.rng, 0);
        }
        let mut def = Def::new(&s.sys, &s.tree, &s.files);
        if fail && s.sys.tmd.len() > 0x1E4 {
            def.fail = match c.rng.below(8) {
                0 => FailAt::Header,
                1 => FailAt::Bi2,
                2 => FailAt::Apploader,
                3 => FailAt::Fst,
                4 => FailAt::Dol,
                _ if !s.files.is_empty() => FailAt::File(c.rng.below(s.files.len() as u64) as usize),
                _ => FailAt::Dol,
            };
        }
        let r = catch(|| add_def(&mut b, kind, &mut def, &mut |_| ()))?;
        match (&r, fail) {
            (Ok(()), true) => return Err(format!("addition reported success although {:?} failed", def.fail)),
            (Err(e), false) => return Err(format!("addition refused: {e} ({})", s.describe())),
            _ => {}
        }
        fail = r.is_err();
        sig.push(if fail { 'f' } else { 'o' });
        if c.rng.chance(1, 6) {
            b.finish().map_err(|e| format!("finish in between: {e}"))?;
            sig.push('.');
            c.st.add("images finished in between", 1);
        }
        if fail {
            c.st.add("additions failed", 1);
        } else {
            c.st.add("additions ok", 1);
            ok.push((kind, s));
        }
    }
    b.finish().map_err(|e| format!("finish: {e}"))?;
    drop(b);
    let img = out.into_inner();
    let mut h = hash_bytes(sig.as_bytes());
    for (_, s) in &ok {
        h ^= s.signature();
    }
    c.st.distinct(h);
    c.st.sample(|| {
        format!(
            "history {sig}, kinds {:?}, final image {:#x} bytes",
            ok.iter().map(|o| o.0).collect::<Vec<_>>(),
            img.len()
        )
    });
    let want: Vec<u32> = ok.iter().map(|o| o.0).collect();
    let l = list_parts(&img).map_err(|e| format!("{e} (history {sig})"))?;
    let got: Vec<u32> = l.iter().map(|x| x.0).collect();
    if got != want {
        return Err(format!("partition types listed {got:?}, added {want:?} (history {sig})"));
    }
    let mut r = WiiIsoReader::open(Cursor::new(&img[..])).map_err(|e| format!("image does not open: {e} (history {sig})"))?;
    let lib: Vec<(u32, u64)> = r.partitions().iter().map(|p| (kind_no(p.get_type()), p.get_offset())).collect();
    if lib != l {
        return Err(format!("library lists {lib:x?}, table holds {l:x?}"));
    }
    expect_eq("disc header", &header_bytes(r.get_header()), &hs.header)?;
    expect_eq("region", r.get_region(), &hs.region)?;
    let mut ext = vec![];
    let entries = r.partitions().to_vec();
    for (i, ((kind, off), (_, s))) in l.iter().zip(&ok).enumerate() {
        let ctx = |e: String| format!("partition {i} (history {sig}): {e}");
        if *off < 0x50000 {
            return Err(ctx(format!("starts at {off:#x}")));
        }
        let v = open_part_opt(&img, *kind, *off, false).map_err(ctx)?;
        let (a, z) = v.extent();
        if z > img.len() as u64 {
            return Err(ctx("reaches past the end of the image".into()));
        }
        ext.push((a, z, i));
        expect_eq("ticket", &v.ticket, &s.sys.ticket).map_err(ctx)?;
        expect_eq("TMD", &tmd_carried(&v.tmd), &tmd_carried(&s.sys.tmd)).map_err(ctx)?;
        expect_eq("certificates", &v.certs, &s.sys.certs).map_err(ctx)?;
        expect_eq(
            "header",
            &gen::header_without_layout(&v.boot),
            &gen::header_without_layout(&s.sys.header),
        )
        .map_err(ctx)?;
        same_shape(&v.fst, &s.tree, "reference").map_err(ctx)?;
        for (path, o, len) in tree_files(&v.fst) {
            expect_eq(&format!("file {}", pathstr(&path)), v.file(o, len).map_err(ctx)?, &s.files[&path]).map_err(ctx)?;
        }
        verify_hashes(&img, *off, c.st).map_err(ctx)?;
        let p = r.open_partition(entries[i].clone()).map_err(|e| ctx(format!("library cannot open it: {e}")))?;
        same_shape(&from_fst(p.get_fst()), &s.tree, "library").map_err(ctx)?;
    }
    ext.sort();
    for w in ext.windows(2) {
        if w[1].0 < w[0].1 {
            return Err(format!(
                "partitions {} and {} overlap ({:#x}..{:#x}, {:#x}..) (history {sig})",
                w[0].2, w[1].2, w[0].0, w[0].1, w[1].0
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C16: Prop = Prop {
    id: "C16",
    run: c16,
    quick: 6000,
    thorough: 150000,
    rule: "a case is one build whose progress calls and file requests are logged in order and checked against the trace specification; claimed lengths true, unknown, or arbitrary; distinct by content and claim style",
    need: &[("progress events", 2000), ("true claims", 30), ("unknown claims", 30), ("false claims", 60), ("directory builds", 50), ("large builds", 1), ("unfinished builds", 20)],
};

/// an honest definition of far more data than the case can afford: its last file is never supplied
fn c16_unfinished(c: &mut Case) -> Res {
    let s = pick_scenario(&mut c.rng, 1000, def_opts(false));
    let mut t = s.tree.clone();
    for_each_file_mut(&mut t, &mut |p, _, l| *l = s.files[p].len() as u32);
    let total = s.total();
    let mut files = s.files.clone();
    // around what 31, 32 and more bits can count
    let n = c.rng.range(1, 4) as usize;
    let around = c.rng.below(2 * total + 2);
    let mut left = (*c.rng.pick(&[1u64 << 31, 1 << 32, 2 << 32, 3 << 32]) + around).saturating_sub(total).max(1);
    for k in 0..n {
        let len = if k + 1 == n { left } else { c.rng.below(left) + 1 }.min(u32::MAX as u64);
        left = (left - len).max(1);
        let name = format!("zzzz-{k}");
        if s.files.contains_key(&vec![name.clone()]) {
            return Ok(());
        }
        files.insert(vec![name.clone()], vec![]);
        t.push(RNode::File { name, off: 0, len: len as u32 });
    }
    let events = RefCell::new(vec![]);
    let mut def = Def::new(&s.sys, &t, &files);
    def.events = Some(&events);
    def.fail = FailAt::File(s.files.len());
    let mut out = Cursor::new(vec![]);
    let r = build_def(&mut out, 0, &mut def, &mut |p| events.borrow_mut().push(Event::Progress(p)));
    if r.is_ok() {
        return Err("a build succeeded although a file was not supplied".into());
    }
    let vals: Vec<u8> = events
        .borrow()
        .iter()
        .filter_map(|e| match e {
            Event::Progress(p) => Some(*p),
            _ => None,
        })
        .collect();
    c.st.add("progress events", vals.len() as u64);
    c.st.add("unfinished builds", 1);
    if vals.first() != Some(&0) || vals.windows(2).any(|w| w[1] < w[0]) || vals.iter().any(|v| *v >= 100) {
        return Err(format!("progress {vals:?} although a file of a definition with true lengths was never supplied ({})", s.describe()));
    }
    Ok(())
}

fn c16(c: &mut Case) -> Res {
    let style = c.idx % 5;
    if c.idx % 50 == 30 {
        return c16_unfinished(c);
    }
    let mut s = pick_scenario(&mut c.rng, c.idx / 5, if style == 4 { dir_opts(c.thorough) } else { def_opts(c.thorough) });
    if c.idx == 50 || c.thorough && c.idx % 10000 == 50 {
        // so much data that the last byte is a tiny part of it
        s.tree = ["a", "b", "z"].iter().map(|n| RNode::File { name: n.to_string(), off: 0, len: 0 }).collect();
        let big = c.rng.range(70, 150) as usize;
        let last = c.rng.range(1, 2) as usize;
        let sizes = [big << 20, 96 << 20, last];
        s.files = tree_files(&s.tree).into_iter().zip(sizes).map(|(f, n)| (f.0, vec![n as u8; n])).collect();
        c.st.add("large builds", 1);
    }
    let total: u64 = s.total();
    let events = RefCell::new(vec![]);
    let label = format!("claim style {style}, {}", s.describe());
    if style == 4 {
        let root = c.scratch.join("src");
        harness_io(write_dir(&mut c.rng, &root, &s.sys, &s.tree, &s.files))?;
        let mut out = Cursor::new(vec![]);
        build_dir(&root, &mut out, &mut |p| events.borrow_mut().push(Event::Progress(p)))
            .map_err(|e| format!("directory refused: {e}"))?;
        c.st.add("directory builds", 1);
    } else {
        let mut t = s.tree.clone();
        let mut pr = c.rng.fork();
        let shrink = pr.chance(1, 2);
        for_each_file_mut(&mut t, &mut |p, _, l| match style {
            0 => *l = s.files[p].len() as u32,
            1 => *l = 0,
            2 => *l = if shrink { (s.files[p].len() / 3) as u32 + pr.below(2) as u32 } else { pr.next() as u32 },
            _ => *l = *pr.pick(&[0u32, 1, 1, 2]),
        });
        c.st.add(["true claims", "unknown claims", "false claims", "false claims"][style as usize], 1);
        let mut def = Def::new(&s.sys, &t, &s.files);
        def.events = Some(&events);
        let mut out = Cursor::new(vec![]);
        build_def(&mut out, 0, &mut def, &mut |p| events.borrow_mut().push(Event::Progress(p)))
            .map_err(|e| format!("definition refused: {e} ({label})"))?;
        let order = def.calls.clone();
        // how many bytes have been supplied at each file event
        let sizes: Vec<u64> = order.iter().map(|p| s.files[p].len() as u64).collect();
        let mut given = 0u64;
        let mut files = 0usize;
        if style < 2 {
            for e in events.borrow().iter() {
                match e {
                    Event::File(_) => {
                        given += sizes[files];
                        files += 1;
                    }
                    Event::Progress(100) if !(given == total && (style == 0 && total > 0 || files == sizes.len())) => {
                        return Err(format!(
                            "progress 100 after {given} of {total} bytes and {files} of {} files ({label})",
                            sizes.len()
                        ));
                    }
                    _ => {}
                }
            }
        }
    }
    let ev = events.into_inner();
    let vals: Vec<u8> = ev
        .iter()
        .filter_map(|e| match e {
            Event::Progress(p) => Some(*p),
            _ => None,
        })
        .collect();
    c.st.add("progress events", vals.len() as u64);
    c.st.add("file requests", (ev.len() - vals.len()) as u64);
    c.st.max("max_values_in_one_build", vals.iter().collect::<BTreeSet<_>>().len() as u64);
    c.st.distinct(s.signature() ^ style);
    c.st.sample(|| format!("{label}: {:?}", &vals[..vals.len().min(12)]));
    if !matches!(ev.first(), Some(Event::Progress(0))) {
        return Err(format!("first event is {:?} instead of progress 0 ({label})", ev.first()));
    }
    if let Some(w) = vals.windows(2).find(|w| w[1] < w[0]) {
        return Err(format!("progress falls from {} to {} ({label})", w[0], w[1]));
    }
    if let Some(v) = vals.iter().find(|v| **v > 100) {
        return Err(format!("progress {v} reported ({label})"));
    }
    if !s.files.is_empty() && (style == 4 || style < 2) && vals.last() != Some(&100) {
        return Err(format!("last progress is {:?} ({label})", vals.last()));
    }
    Ok(())
}

/// used by several modules
pub fn zero_map(t: &[RNode]) -> BTreeMap<Vec<String>, Vec<u8>> {
    tree_files(t).into_iter().map(|f| (f.0, vec![])).collect()
}
