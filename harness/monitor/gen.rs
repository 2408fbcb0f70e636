//! Generators for names, trees, contents, system files and whole images.

use crate::refwii::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

pub type Path = Vec<String>;

const ASCII_ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const ASCII_SYM: &[u8] = b"_-.,+ ()!#$%&'@[]{}^`=;~\\";
/// kana and kanji, among them ones whose second Shift-JIS byte is 0x5C, 0x7C or a letter
const JP: &[char] = &[
    'ソ', '表', '能', 'ポ', 'ア', 'イ', 'あ', 'い', 'ん', '日', '本', '語', '名', '前', '予', '貼', '暴', '構', '十',
    '申', '欺', '圭', '噂', '浬', '蚕', '曾', '箪', 'Ａ', 'ｚ', '０', '！', '　', '①', 'Ⅷ', '㈱', '鑰', '熙', '纊', 'ё',
    'Ω',
];
const HALF: &[char] = &['ｱ', 'ｲ', 'ｳ', 'ﾝ', 'ﾞ', 'ﾟ', '｡', 'ｿ', 'ｶ'];

pub fn name(rng: &mut Rng) -> String {
    if rng.chance(1, 40) {
        return rng.pick(SPECIAL).to_string();
    }
    loop {
        let style = rng.below(12);
        let n = match rng.below(12) {
            0 => 1,
            1 => rng.range(60, 80),
            2 if style != 4 => rng.range(20, 50),
            _ => rng.range(1, 12),
        };
        let mut s = String::new();
        for _ in 0..n {
            let c = match style {
                0..=4 => *rng.pick(ASCII_ALNUM) as char,
                5 => *rng.pick(b"aAbB_z") as char,
                6 => {
                    if rng.chance(1, 2) {
                        *rng.pick(ASCII_SYM) as char
                    } else {
                        *rng.pick(ASCII_ALNUM) as char
                    }
                }
                7 => *rng.pick(JP),
                8 => *rng.pick(HALF),
                9 => match rng.below(3) {
                    0 => *rng.pick(JP),
                    1 => *rng.pick(HALF),
                    _ => *rng.pick(ASCII_ALNUM) as char,
                },
                10 => *rng.pick(b"01") as char,
                _ => char::from_u32(rng.range(0x20, 0x7e) as u32).unwrap(),
            };
            if c != '/' && c != '\0' {
                s.push(c);
            }
        }
        if rng.chance(1, 3) {
            s.push_str(rng.pick(&[".arc", ".bin", ".THP", ".brstm", ".", ".a.b"]));
        }
        if s.is_empty() || s == "." || s == ".." || s.len() > 240 || sjis(&s).is_none() {
            continue;
        }
        return s;
    }
}

/// names other programs treat specially
pub const SPECIAL: &[&str] = &[
    ".DS_Store", "Thumbs.db", "desktop.ini", "._x", ".git", ".gitkeep", ".gitignore", "a.bak", "~backup", "lost+found", ".hidden", "...", "..a",
    "a..", "CON", "nul", "#x#", "x.tmp", "x.swp", "core", "$RECYCLE.BIN", "sys", "files", "disc", "DATA", "boot.bin", "fst.bin", "-", "--", "-rf", "*",
    "%s", "a b", " a", "a ", "a.orig", ".nomedia", "__MACOSX", "a.part",
];

/// names that make ordering and prefix mistakes visible
pub const TRICKY: &[&str] = &[
    "a", "A0", "a.", "a_", "a~", "aa", "AB", "ab.c", "abc", "Ab_", "B", "b0", "_", "Z", "[", "]", "z", "0", "00",
    "File", "file1", "FILE10", "file2", "fil", "ソ", "表.bin", "ｱ", "readme.TXT", "Demo01", "demo",
];

#[derive(Clone, Copy, Debug)]
pub struct TreeParams {
    pub max_nodes: usize,
    pub max_depth: usize,
    pub sorted: bool,
    pub allow_empty_dirs: bool,
    pub fancy: bool,
}

/// Random tree; file offsets and lengths are zero.
/// Names are unique per directory case-insensitively.
pub fn tree(rng: &mut Rng, p: TreeParams) -> Vec<RNode> {
    fn rec(rng: &mut Rng, p: &TreeParams, depth: usize, left: &mut usize) -> Vec<RNode> {
        let mut used: HashSet<Vec<u8>> = HashSet::new();
        let mut v = vec![];
        let want = match rng.below(8) {
            0 => 1,
            1 => 2,
            2 if depth == 0 => *left as u64,
            _ => rng.range(1, 12),
        };
        for _ in 0..want {
            if *left == 0 {
                break;
            }
            let n = if p.fancy && rng.chance(3, 4) {
                name(rng)
            } else if rng.chance(1, 2) {
                rng.pick(TRICKY).to_string()
            } else {
                format!("{}{}", rng.pick(&["f", "F", "dat", "St_"]), rng.below(40))
            };
            if !used.insert(lower(&n)) {
                continue;
            }
            *left -= 1;
            if depth + 1 < p.max_depth && rng.chance(2, 5) {
                let kids = if p.allow_empty_dirs && rng.chance(1, 5) {
                    vec![]
                } else {
                    rec(rng, p, depth + 1, left)
                };
                if kids.is_empty() && !p.allow_empty_dirs {
                    v.push(RNode::File {
                        name: n,
                        off: 0,
                        len: 0,
                    });
                } else {
                    v.push(RNode::Dir { name: n, kids });
                }
            } else {
                v.push(RNode::File {
                    name: n,
                    off: 0,
                    len: 0,
                });
            }
        }
        if p.sorted {
            v.sort_by_key(|n| lower(n.name()));
        }
        v
    }
    let mut left = match rng.below(10) {
        0 => rng.range(0, 2) as usize,
        1 | 2 => p.max_nodes,
        _ => rng.range(1, p.max_nodes.max(1) as u64) as usize,
    };
    rec(rng, &p, 0, &mut left)
}

/// a chain of `depth` directories with one file at the bottom and one at each level
pub fn deep_tree(rng: &mut Rng, depth: usize) -> Vec<RNode> {
    let mut kids = vec![RNode::File {
        name: "bottom.bin".into(),
        off: 0,
        len: 0,
    }];
    for i in 0..depth {
        kids = vec![
            RNode::Dir {
                name: format!("d{}", i % 7),
                kids,
            },
            RNode::File {
                name: format!("z{}", rng.below(10)),
                off: 0,
                len: 0,
            },
        ];
    }
    kids
}

/// many files in a handful of directories
pub fn wide_tree(rng: &mut Rng, files: usize, name_len: usize) -> Vec<RNode> {
    let dirs = rng.range(1, 6) as usize;
    let mut out: Vec<RNode> = vec![];
    let mut id = 0;
    for d in 0..dirs {
        let n = files / dirs + 1;
        let mut kids = vec![];
        for _ in 0..n {
            let mut s = format!("f{id:06}");
            while s.len() < name_len {
                s.push(*rng.pick(ASCII_ALNUM) as char);
            }
            id += 1;
            kids.push(RNode::File {
                name: s,
                off: 0,
                len: 0,
            });
        }
        if d == 0 {
            out.extend(kids);
        } else {
            out.push(RNode::Dir {
                name: format!("dir{d}"),
                kids,
            });
        }
    }
    out.sort_by_key(|n| lower(n.name()));
    out
}

/// File content is a function of (seed, length) so that any misplaced byte is visible.
/// more than 65536 nodes, with directories after (and containing) that point
pub fn huge_tree(rng: &mut Rng) -> Vec<RNode> {
    let mut t = wide_tree(rng, 66_000, 6);
    let f = |n: &str| RNode::File { name: n.into(), off: 0, len: 0 };
    let d = |n: &str, kids: Vec<RNode>| RNode::Dir { name: n.into(), kids };
    t.push(d("zz", vec![f("a"), d("b", vec![f("x"), d("y", vec![f("z")])]), f("c")]));
    t.push(d("zzz", vec![f("last")]));
    t
}

pub fn content(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::new(seed ^ 0xC0FFEE);
    // some files are all zero / constant on purpose (they must still be stored)
    match seed % 17 {
        0 => vec![0u8; len],
        1 => vec![(seed >> 8) as u8; len],
        _ => r.bytes(len),
    }
}

pub const BOUNDARY: &[u64] = &[
    0, 1, 2, 3, 4, 31, 32, 33, 62, 63, 64, 65, 0x3ff, 0x400, 0x401, 0x7bff, 0x7c00, 0x7c01, 0x8000, 0xf800, 0xffff,
    0x10000, 0x10001,
];

/// file size mix; `budget` limits large ones
pub fn size(rng: &mut Rng, budget: &mut u64) -> u64 {
    let s = match rng.below(16) {
        0 | 1 => 0,
        2..=6 => *rng.pick(BOUNDARY),
        7..=11 => rng.range(1, 2000),
        12 => rng.range(1, 0x20000),
        13 => (GRPD as u64 - rng.below(3)) + rng.below(3),
        14 => rng.range(0x100000, 0x2f0000),
        _ => rng.below(64) * 64 + rng.below(3),
    };
    if s > *budget {
        let s = rng.below(200).min(*budget);
        *budget -= s;
        return s;
    }
    *budget -= s;
    s
}

pub fn contents(rng: &mut Rng, tree: &[RNode], mut budget: u64) -> BTreeMap<Path, Vec<u8>> {
    let mut files = tree_files(tree);
    let mut order: Vec<usize> = (0..files.len()).collect();
    rng.shuffle(&mut order);
    let mut m = BTreeMap::new();
    for i in order {
        let s = size(rng, &mut budget);
        let p = std::mem::take(&mut files[i].0);
        m.insert(p, content(rng.next(), s as usize));
    }
    m
}

// ---------------------------------------------------------------------------------------------
// system files

/// A disc header with zero padding; title is ASCII/UTF-8, NUL-terminated
pub fn disc_header(rng: &mut Rng) -> Vec<u8> {
    let mut h = vec![0u8; HDR_LEN];
    for i in 0..6 {
        h[i] = *rng.pick(ASCII_ALNUM);
    }
    h[6] = rng.below(256) as u8;
    h[7] = rng.below(256) as u8;
    h[8] = rng.below(256) as u8;
    h[9] = rng.below(256) as u8;
    put32(&mut h, 0x18, 0x5D1C9EA3);
    if rng.chance(1, 4) {
        put32(&mut h, 0x1C, rng.next() as u32);
    }
    let t = title(rng);
    h[0x20..0x20 + t.len()].copy_from_slice(t.as_bytes());
    h[0x60] = rng.pick(&[0u8, 0, 1, 0xff]).to_owned();
    h[0x61] = rng.pick(&[0u8, 0, 1, 0x80]).to_owned();
    for o in (0x400..0x408).step_by(4) {
        put32(&mut h, o, rng.next() as u32);
    }
    for o in (0x420..0x43C).step_by(4) {
        put32(&mut h, o, rng.next() as u32);
    }
    h
}

/// valid UTF-8, 0..=63 bytes
pub fn title(rng: &mut Rng) -> String {
    let max = *rng.pick(&[0usize, 1, 10, 30, 61, 62, 63]);
    let mut s = String::new();
    loop {
        let c = match rng.below(10) {
            0 => *rng.pick(JP),
            1 => 'é',
            _ => char::from_u32(rng.range(0x20, 0x7e) as u32).unwrap(),
        };
        if s.len() + c.len_utf8() > max {
            // fill up with ASCII so that exact lengths occur
            while s.len() < max {
                s.push('x');
            }
            return s;
        }
        s.push(c);
    }
}

/// fields of a disc header that a build must carry over (everything but the layout fields)
pub fn header_without_layout(h: &[u8]) -> Vec<u8> {
    let mut h = h.to_vec();
    h[0x420..0x430].fill(0);
    h
}

pub fn ticket(rng: &mut Rng) -> Vec<u8> {
    let mut t = vec![0u8; TICKET_LEN];
    let sig = *rng.pick(&[0x10000u32, 0x10001, 0x10001, 0x10002]);
    put32(&mut t, 0, sig);
    rng.fill(&mut t[4..0x104]);
    rng.fill(&mut t[0x140..0x1BC]);
    rng.fill(&mut t[0x1BF..0x1CF]);
    rng.fill(&mut t[0x1D0..0x1F1]);
    t[0x1F1] = rng.below(2) as u8;
    rng.fill(&mut t[0x222..TICKET_LEN]);
    t
}

pub fn tmd(rng: &mut Rng, contents: usize) -> Vec<u8> {
    let mut t = vec![0u8; 0x1E4 + contents * 36];
    put32(&mut t, 0, *rng.pick(&[0x10000u32, 0x10001, 0x10001, 0x10002]));
    rng.fill(&mut t[4..0x104]);
    rng.fill(&mut t[0x140..0x183]);
    rng.fill(&mut t[0x184..0x1D2]);
    rng.fill(&mut t[0x1D8..0x1DE]);
    put16(&mut t, 0x1DE, contents as u16);
    rng.fill(&mut t[0x1E0..0x1E2]);
    rng.fill(&mut t[0x1E4..]);
    t
}

pub fn cert(rng: &mut Rng) -> Vec<u8> {
    let (st, sl) = *rng.pick(&[(0x10000u32, 512usize), (0x10001, 256), (0x10002, 64)]);
    let (kt, kl) = *rng.pick(&[(0u32, 512usize), (1, 256)]);
    let mut c = st.to_be_bytes().to_vec();
    c.extend(rng.bytes(sl));
    c.extend(vec![0; 60]);
    c.extend(rng.bytes(64));
    c.extend(kt.to_be_bytes());
    c.extend(rng.bytes(64));
    c.extend(rng.bytes(kl));
    c.extend(rng.bytes(8));
    c.extend(vec![0; 52]);
    c
}

pub fn certs(rng: &mut Rng) -> Vec<u8> {
    if rng.chance(1, 2) {
        // the usual chain: RSA-2048 twice, RSA-4096 root signature
        let mut v = vec![];
        for _ in 0..3 {
            v.extend(cert(rng));
        }
        return v;
    }
    let mut v = vec![];
    for _ in 0..3 {
        v.extend(cert(rng));
    }
    v
}

pub fn apploader(rng: &mut Rng, len: usize) -> Vec<u8> {
    let len = len.max(32);
    let mut a = rng.bytes(len);
    let s1 = rng.range(0, (len - 32) as u64) as u32;
    put32(&mut a, 0x14, s1);
    put32(&mut a, 0x18, len as u32 - 32 - s1);
    a
}

/// A DOL whose header describes exactly `len` bytes (len >= 0x100), in one of several layouts
pub fn dol(rng: &mut Rng, len: usize) -> Vec<u8> {
    let len = len.max(0x100);
    let mut d = rng.bytes(len);
    d[..0x100].fill(0);
    for o in (0x48..0x90).step_by(4) {
        put32(&mut d, o, 0x80000000 | (rng.next() as u32 & 0xFFFFFF));
    }
    put32(&mut d, 0xD8, rng.next() as u32);
    put32(&mut d, 0xDC, rng.next() as u32);
    put32(&mut d, 0xE0, rng.next() as u32);
    let body = len - 0x100;
    if body == 0 {
        // header only
        if rng.chance(1, 2) {
            put32(&mut d, 4 * rng.below(18) as usize, rng.next() as u32);
        }
        return d;
    }
    let style = rng.below(6);
    let nsec = rng.range(1, 18.min(body as u64)) as usize;
    // cut points
    let mut cuts: Vec<usize> = (0..nsec - 1).map(|_| rng.range(0, body as u64) as usize).collect();
    cuts.push(0);
    cuts.push(body);
    cuts.sort();
    let mut secs: Vec<(usize, usize)> = cuts.windows(2).map(|w| (0x100 + w[0], w[1] - w[0])).collect();
    // section slots: contiguous from text0 (usual), or any slots, in any order
    let mut slots: Vec<usize> = (0..18).collect();
    match style {
        0 | 1 => {}
        2 => rng.shuffle(&mut slots),
        3 => {
            // gaps between sections
            for s in secs.iter_mut() {
                if s.1 > 8 && s.0 + s.1 != len {
                    s.1 -= rng.range(1, 8) as usize;
                }
            }
        }
        4 => {
            // no text section 0
            slots.remove(0);
        }
        _ => {
            rng.shuffle(&mut slots);
            rng.shuffle(&mut secs);
        }
    }
    for (k, (o, s)) in secs.iter().enumerate().take(slots.len()) {
        put32(&mut d, slots[k] * 4, *o as u32);
        put32(&mut d, 0x90 + slots[k] * 4, *s as u32);
    }
    // unused sections may carry any offset
    if rng.chance(1, 3) {
        for k in 0..18 {
            if be32(&d, 0x90 + k * 4) == 0 && rng.chance(1, 2) {
                let o = if rng.chance(1, 2) { rng.next() as u32 } else { len as u32 + rng.below(0x10000) as u32 };
                put32(&mut d, k * 4, o);
            }
        }
    }
    // make sure the described length is exactly `len`
    let end = dol_len(&d) as usize;
    d.truncate(end.max(0x100));
    if d.len() < end {
        d.resize(end, 0x5a);
    }
    d
}

#[derive(Clone)]
pub struct Sys {
    pub header: Vec<u8>,
    pub bi2: Vec<u8>,
    pub apploader: Vec<u8>,
    pub dol: Vec<u8>,
    pub ticket: Vec<u8>,
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
    pub region: [u8; 32],
}

/// `fst_at`: if given, size the DOL so that the file table starts near that offset
pub fn sys(rng: &mut Rng, fst_at: Option<u64>) -> Sys {
    let bi2_len = *rng.pick(&[0x2000usize, 0x2000, 0x2000, 0x1fff, 0, 1, 0x1234]);
    let alen = match rng.below(6) {
        0 => 32,
        1 => rng.range(32, 100) as usize,
        2 => *rng.pick(&[0x20000usize, 0x7c00 - 0x2440, 0x7c00 - 0x2440 + 1, 0x7c00, 0x7c20, 0x8000, 0x8020, 0x10000, 0x10020]),
        _ => rng.range(33, 0x4000) as usize,
    };
    let app = apploader(rng, alen);
    let dlen = match fst_at {
        Some(t) => (t as usize).saturating_sub(0x2440 + app.len()).max(0x100),
        None => match rng.below(8) {
            0 => 0x100,
            1 => rng.range(0x100, 0x200) as usize,
            2 => rng.range(0x8000, 0x40000) as usize,
            _ => rng.range(0x120, 0x3000) as usize,
        },
    };
    let n = *rng.pick(&[1usize, 1, 1, 2, 3, 7]);
    let n = if rng.chance(1, 10) { rng.range(1, 300) as usize } else { n };
    Sys {
        header: disc_header(rng),
        bi2: rng.bytes(bi2_len),
        apploader: app,
        dol: dol(rng, dlen),
        ticket: ticket(rng),
        tmd: tmd(rng, n),
        certs: certs(rng),
        region: rng.arr(),
    }
}

// ---------------------------------------------------------------------------------------------
// reference images with foreign layouts

pub struct GenPart {
    pub part: RPart,
    pub sys: Sys,
    pub tree: Vec<RNode>,
    pub fst_off: u64,
    pub fst_bytes: Vec<u8>,
    pub dol_off: u64,
}

#[derive(Clone, Copy)]
pub struct PartParams {
    pub groups: usize,
    pub max_nodes: usize,
    pub sorted: bool,
    pub fancy: bool,
    pub empty_dirs: bool,
}

/// A partition whose data is laid out by the reference, at arbitrary places
pub fn ref_part(rng: &mut Rng, off: u64, kind: u32, p: PartParams) -> GenPart {
    let t = tree(
        rng,
        TreeParams {
            max_nodes: p.max_nodes,
            max_depth: 6,
            sorted: p.sorted,
            allow_empty_dirs: p.empty_dirs,
            fancy: p.fancy,
        },
    );
    ref_part_with(rng, off, kind, p.groups, t)
}

pub fn ref_part_with(rng: &mut Rng, off: u64, kind: u32, groups: usize, mut t: Vec<RNode>) -> GenPart {
    let cap = groups * GRPD;
    let mut s = sys(rng, None);
    let mut plain = if rng.chance(1, 2) { rng.bytes(cap) } else { vec![0u8; cap] };
    // place: header, bi2, apploader fixed; DOL, FST and files wherever there is room
    let mut cursor = (0x2440 + s.apploader.len() as u64 + 31) & !31;
    let mut items: Vec<u64> = vec![0, 1]; // 0 = DOL, 1 = FST
    let nfiles = tree_files(&t).len() as u64;
    items.extend(2..2 + nfiles);
    if rng.chance(1, 2) {
        rng.shuffle(&mut items[..]);
    }
    // provisional FST just for its length
    let lay = NameLayout {
        reversed: rng.chance(1, 4),
        share: rng.chance(1, 4),
        lead_gap: rng.below(3) as usize,
        root_name_off: 0,
        dir_flag: 1,
    };
    let fst_len = fst_encode(&t, lay).len() as u64;
    let mut dol_off = 0;
    let mut fst_off = 0;
    let mut spots: BTreeMap<u64, (u64, u32)> = BTreeMap::new();
    // reserve room for DOL and FST and alignment slack for every item
    const SLACK: u64 = 0x380;
    let mut reserve = s.dol.len() as u64 + fst_len + (nfiles + 2) * SLACK;
    assert!(cursor + reserve <= cap as u64, "generator: tree too big for the partition");
    for it in items {
        match it {
            0 => {
                dol_off = cursor;
                cursor += s.dol.len() as u64;
                reserve -= s.dol.len() as u64;
            }
            1 => {
                fst_off = cursor;
                cursor += fst_len;
                reserve -= fst_len;
            }
            f => {
                let room = (cap as u64).saturating_sub(cursor + reserve);
                let mut b = room;
                let mut len = match rng.below(6) {
                    // end exactly on, just before or just after a block or group boundary
                    0 => {
                        let unit = *rng.pick(&[BLKD as u64, GRPD as u64, 0x400]);
                        let e = (cursor / unit + 1) * unit + rng.below(3);
                        (e - cursor).saturating_sub(1)
                    }
                    _ => size(rng, &mut b),
                };
                if len > room {
                    len = rng.below(5).min(room);
                }
                if groups >= 10 && spots.is_empty() && rng.chance(3, 4) {
                    // one long file takes most of a large partition
                    len = room - rng.below(room / 4 + 1);
                }
                spots.insert(f, (cursor, len as u32));
                cursor += len;
            }
        }
        cursor = match rng.below(4) {
            0 => (cursor + 3) & !3,
            1 => (cursor + 0x3f) & !0x3f,
            2 => (cursor + 3 + 4 * rng.below(200)) & !3,
            _ => (cursor + 0x1f) & !0x1f,
        };
        reserve -= SLACK;
    }
    // files may share their data
    if nfiles > 1 && rng.chance(1, 8) {
        for _ in 0..rng.range(1, 3) {
            let (a, b) = (2 + rng.below(nfiles), 2 + rng.below(nfiles));
            let v = spots[&a];
            spots.insert(b, v);
        }
    }
    let mut k = 2;
    let mut cr = rng.fork();
    for_each_file_mut(&mut t, &mut |_, o, l| {
        let (off, len) = spots[&k];
        k += 1;
        *o = off;
        *l = len;
        let c = content(cr.next(), *l as usize);
        if *l > 0 {
            plain[off as usize..off as usize + c.len()].copy_from_slice(&c);
        }
    });
    let fst_bytes = fst_encode(&t, lay);
    put32(&mut s.header, 0x420, (dol_off >> 2) as u32);
    put32(&mut s.header, 0x424, (fst_off >> 2) as u32);
    put32(&mut s.header, 0x428, ((fst_bytes.len() as u64 + 3) >> 2) as u32);
    put32(&mut s.header, 0x42C, ((fst_bytes.len() as u64 + 3) >> 2) as u32);
    // a full size bi2 always exists on a disc
    if s.bi2.len() < 0x2000 {
        let n = s.bi2.len();
        s.bi2.resize(0x2000, 0);
        rng.fill(&mut s.bi2[n..]);
    }
    plain[..HDR_LEN].copy_from_slice(&s.header);
    plain[0x440..0x2440].copy_from_slice(&s.bi2);
    plain[0x2440..0x2440 + s.apploader.len()].copy_from_slice(&s.apploader);
    plain[dol_off as usize..dol_off as usize + s.dol.len()].copy_from_slice(&s.dol);
    plain[fst_off as usize..fst_off as usize + fst_bytes.len()].copy_from_slice(&fst_bytes);
    // the partition's fixed parts can be placed anywhere before the data
    let tmd_off = 0x2C0 + 4 * rng.below(8);
    let cert_off = (tmd_off + s.tmd.len() as u64 + 31 + 32 * rng.below(4)) & !31;
    let h3_off = *rng.pick(&[0x8000u64, 0x8000, 0x10000, 0x4000]);
    let data_off = match *rng.pick(&[0x20000u64, 0x20000, 0x28000, 0x40000]) {
        d if d < h3_off + H3_LEN as u64 => 0x28000,
        d => d,
    };
    let part = RPart {
        kind,
        off,
        ticket: s.ticket.clone(),
        tmd: s.tmd.clone(),
        tmd_off,
        certs: s.certs.clone(),
        cert_off,
        h3_off,
        data_off,
        data_size: cap as u64,
        plain,
    };
    GenPart {
        part,
        sys: s,
        tree: t,
        fst_off,
        fst_bytes,
        dol_off,
    }
}

pub struct GenDisc {
    pub disc: RDisc,
    pub parts: Vec<GenPart>,
}

/// Image with `n` partitions spread over the four tables
pub fn ref_disc(rng: &mut Rng, n: usize, mk: &mut dyn FnMut(&mut Rng, usize) -> PartParams) -> GenDisc {
    let mut parts = vec![];
    let mut off = 0x50000u64;
    for i in 0..n {
        let kind = if i == 0 && rng.chance(1, 2) { 0 } else { rng.below(3) as u32 };
        let pp = mk(rng, i);
        let g = ref_part(rng, off, kind, pp);
        off = g.part.end();
        if rng.chance(1, 3) {
            off += 4 * rng.below(0x4000);
        }
        parts.push(g);
    }
    let mut tables: Vec<(u64, Vec<usize>)> = vec![(0x40020, vec![]); 4];
    let style = rng.below(3);
    for i in 0..n {
        let t = match style {
            0 => 0,
            1 => rng.below(4) as usize,
            _ => rng.range(1, 3) as usize,
        };
        tables[t].1.push(i);
    }
    for t in tables.iter_mut() {
        rng.shuffle(&mut t.1);
    }
    // table placement: contiguous, or scattered in 0x40020..0x4E000
    let mut o = 0x40020 + 4 * rng.below(64);
    let mut order = [0usize, 1, 2, 3];
    rng.shuffle(&mut order);
    for t in order {
        tables[t].0 = o;
        o += 8 * tables[t].1.len() as u64 + 4 * rng.below(100);
    }
    GenDisc {
        disc: RDisc {
            header: disc_header(rng),
            region: rng.arr(),
            tables,
            parts: parts.iter().map(|p| p.part.clone()).collect(),
        },
        parts,
    }
}
