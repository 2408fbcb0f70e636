//! C12: malformed input ends in a value or an error. The monitors are the panic hook, the
//! allocation watcher (which refuses requests out of proportion to the input, aborting the
//! process), the storage operation limit, the stack guard and the runner's watchdog.

use crate::faultio::Store;
use crate::gen::{self, PartParams, TreeParams};
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, Rng};
use crate::runner::*;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::{ApploaderHeader, DOLHeader, WiiPartitionHeader};
use disc_riider::{Fst, FstNode, WiiIsoReader};
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::path::Path;

pub const C12: Prop = Prop {
    id: "C12",
    run: c12,
    quick: 20000,
    thorough: 500000,
    rule: "a case is one malformed input (image corrupted in the clear or behind valid encryption, hostile file table, arbitrary record bytes, directory with arbitrary system files, truncation or random bytes) driven through the whole API with panics, stack, allocations, storage operations and time monitored; distinct by corrupted bytes",
    need: &[
        ("images", 300),
        ("partitions opened", 100),
        ("tables", 300),
        ("tables read", 30),
        ("deep tables", 5),
        ("records", 300),
        ("directory builds", 100),
        ("corruptions behind encryption", 100),
    ],
};

const WEIRD: &[u32] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0x1ff, 0x440 >> 2, 0x2440 >> 2, 0x8000, 0xffff, 0x10000, 0x14000, 0x1f0000 >> 2, 0x1f0000,
    0x00ff_ffff, 0x0100_0000, 0x3fff_ffff, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xc000_0000, 0xffff_fff0, 0xffff_fffc, 0xffff_fffe, 0xffff_ffff,
];

fn weird32(rng: &mut Rng) -> u32 {
    match rng.below(6) {
        0 => rng.next() as u32,
        1 => rng.below(64) as u32,
        2 => (1u64 << rng.below(32)) as u32,
        3 => rng.below(0x80000) as u32,
        _ => *rng.pick(WEIRD),
    }
}

fn c12(c: &mut Case) -> Res {
    match c.idx % 10 {
        0..=3 => images(c),
        4 => raw_images(c),
        5 | 6 => tables(c),
        7 => records(c),
        _ => directories(c),
    }
}

/// limit for one allocation: generous, but in proportion to the input
fn limit(n: usize) -> usize {
    (64 << 20) + 16 * n
}

/// runs one API interaction under the monitors
fn watch<T>(c_st: &mut Stats, input_len: usize, what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let (r, big) = with_alloc_limit(limit(input_len), || catch(f));
    c_st.max("max_allocation_request", big as u64);
    r.map_err(|e| format!("{what}: {e}"))
}

fn corrupt_u32(rng: &mut Rng, b: &mut [u8], at: usize) {
    if at + 4 <= b.len() {
        let old = be32(b, at);
        let v = match rng.below(5) {
            0 => old.wrapping_add(rng.below(9) as u32).wrapping_sub(4),
            _ => weird32(rng),
        };
        put32(b, at, v);
    }
}

fn images(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let n = if rng.chance(1, 6) { 2 } else { 1 };
    let mut g = gen::ref_disc(rng, n, &mut |r, _| PartParams {
        groups: if r.chance(1, 6) { 2 } else { 1 },
        max_nodes: 20,
        sorted: false,
        fancy: true,
        empty_dirs: true,
    });
    let mut note = vec![];
    // behind the encryption
    if rng.chance(2, 3) {
        for k in 0..rng.range(1, 3) {
            let i = rng.below(n as u64) as usize;
            let (fst_off, dol_off, nodes) = (g.parts[i].fst_off as usize, g.parts[i].dol_off as usize, tree_nodes(&g.parts[i].tree).len());
            let p = &mut g.disc.parts[i].plain;
            match rng.below(10) {
                0 => {
                    let o = *rng.pick(&[0x420usize, 0x424, 0x428, 0x42c, 0x424, 0x420]);
                    corrupt_u32(rng, p, o);
                    note.push(format!("header {o:#x}"));
                }
                1 => {
                    // title without terminator, possibly not UTF-8
                    let l = *rng.pick(&[64usize, 64, 65, 0x3e0, 0x8000]);
                    for x in p[0x20..0x20 + l].iter_mut() {
                        *x = if rng.chance(1, 8) { rng.range(1, 255) as u8 } else { b'T' };
                    }
                    note.push(format!("title of {l}"));
                }
                2 => {
                    let o = *rng.pick(&[0x14usize, 0x18]);
                    corrupt_u32(rng, p, 0x2440 + o);
                    note.push(format!("apploader {o:#x}"));
                }
                3 => {
                    let o = *rng.pick(&[0usize, 0x1c, 0x90, 0x94, 0xac, 0xd4]);
                    for j in 0..rng.range(1, 3) as usize {
                        corrupt_u32(rng, p, dol_off + o + j * 4);
                    }
                    note.push(format!("dol {o:#x}"));
                }
                4 if k == 0 => {
                    let t = hostile_table(rng, 60);
                    let end = (fst_off + t.len()).min(p.len());
                    let at = fst_off.min(end);
                    p[at..end].copy_from_slice(&t[..end - at]);
                    note.push("replaced file table".into());
                }
                5 if k == 0 => {
                    // chain of nested directories
                    let cap = (p.len() - fst_off) / 12 - 2;
                    let d = cap.min(*rng.pick(&[100usize, 1000, 2000, 5000, 50_000, 160_000]));
                    let t = deep_chain(rng, d);
                    let m = t.len().min(p.len() - fst_off);
                    p[fst_off..fst_off + m].copy_from_slice(&t[..m]);
                    note.push(format!("{d} nested directories"));
                }
                _ => {
                    let node = rng.below(nodes as u64 + 1) as usize;
                    let o = fst_off + node * 12 + 4 * rng.below(3) as usize;
                    corrupt_u32(rng, p, o);
                    if rng.chance(1, 4) {
                        p[fst_off + node * 12] = rng.below(3) as u8;
                    }
                    note.push(format!("node {node}"));
                }
            }
            c.st.add("corruptions behind encryption", 1);
        }
    }
    if rng.chance(1, 8) {
        let i = rng.below(n as u64) as usize;
        g.disc.parts[i].data_size = (weird32(rng) as u64) << 2;
        note.push("data size".into());
    }
    let mut img = g.disc.render();
    // in the clear
    if note.is_empty() || rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            let p = &g.disc.parts[rng.below(n as u64) as usize];
            let off = p.off as usize;
            match rng.below(9) {
                0 => {
                    let o = 0x40000 + 4 * rng.below(8) as usize;
                    corrupt_u32(rng, &mut img, o);
                    note.push(format!("table word {o:#x}"));
                }
                1 => {
                    let t = rng.pick(&g.disc.tables).0 as usize + 4 * rng.below(4) as usize;
                    corrupt_u32(rng, &mut img, t);
                    note.push(format!("table entry {t:#x}"));
                }
                2 | 3 => {
                    let o = off + 0x2A4 + 4 * rng.below(7) as usize;
                    corrupt_u32(rng, &mut img, o);
                    note.push(format!("partition header {:#x}", o - off));
                }
                4 => {
                    img[off + 0x1F1] = *rng.pick(&[2u8, 3, 0x7f, 0x80, 0xff]);
                    note.push("common key".into());
                }
                5 => {
                    let o = off + p.tmd_off as usize + 0x1DE;
                    put16(&mut img, o, *rng.pick(&[0u16, 1, 0xff, 0xffff, 0x8000]));
                    note.push("TMD contents".into());
                }
                6 => {
                    let o = off + p.cert_off as usize + *rng.pick(&[0usize, 0, 0x140 + 0x40, 3, 0x300]);
                    corrupt_u32(rng, &mut img, o);
                    note.push("certificate".into());
                }
                7 => {
                    let o = off + *rng.pick(&[0usize, p.tmd_off as usize]);
                    corrupt_u32(rng, &mut img, o);
                    note.push("signature type".into());
                }
                _ => {
                    let l = *rng.pick(&[64usize, 65, 0x3ff, 0x50000]);
                    let v = rng.range(1, 255) as u8;
                    img[0x20..0x20 + l].fill(v);
                    note.push(format!("disc title of {l} x {v:02x}"));
                }
            }
        }
    }
    if rng.chance(1, 12) {
        let keep = match rng.below(4) {
            0 => rng.below(0x440),
            1 => 0x40000 + rng.below(0x40),
            2 => 0x4E000 + rng.below(0x40),
            _ => rng.below(img.len() as u64),
        };
        img.truncate(keep as usize);
        note.push(format!("cut to {keep:#x}"));
    }
    c.st.add("images", 1);
    c.st.distinct(hash_bytes(note.join(",").as_bytes()) ^ rng.next());
    let d = note.join(", ");
    c.st.sample(|| format!("image with {d}"));
    exercise(c, img).map_err(|e| format!("{e} (image with {d})"))
}

fn raw_images(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let n = *rng.pick(&[0usize, 1, 0x3f, 0x440, 0x40020, 0x4E020, 0x50000, 0x60000]);
    let mut b = match rng.below(3) {
        0 => rng.bytes(n),
        1 => vec![*rng.pick(&[0u8, 0xff, 1]); n],
        _ => {
            let mut b = vec![0; n];
            for _ in 0..rng.below(200) {
                let i = rng.below(n.max(1) as u64) as usize;
                if i < n {
                    b[i] = rng.next() as u8;
                }
            }
            b
        }
    };
    if b.len() > 0x40020 && rng.chance(2, 3) {
        for k in 0..4 {
            put32(&mut b, 0x40000 + k * 8, if rng.chance(1, 2) { 0 } else { weird32(rng) });
            put32(&mut b, 0x40004 + k * 8, weird32(rng));
        }
    }
    c.st.add("images", 1);
    c.st.distinct(hash_bytes(&b));
    exercise(c, b)
}

/// opens an image and touches everything it offers
fn exercise(c: &mut Case, img: Vec<u8>) -> Res {
    let len = img.len();
    let mut store = Store::new(img);
    store.op_limit = 60_000_000;
    let opened = watch(c.st, len, "opening the image", move || WiiIsoReader::open(store))?;
    let mut r = match opened {
        Ok(r) => r,
        Err(_) => {
            c.st.add("images refused", 1);
            return Ok(());
        }
    };
    let parts: Vec<_> = r.partitions().iter().take(4).cloned().collect();
    for e in parts {
        let op = watch(c.st, len, "opening a partition", || r.open_partition(e))?;
        let Ok(mut p) = op else {
            c.st.add("partitions refused", 1);
            continue;
        };
        c.st.add("partitions opened", 1);
        let _ = watch(c.st, len, "read_tmd", || p.read_tmd(&mut r))?;
        let _ = watch(c.st, len, "read_certificates", || p.read_certificates(&mut r))?;
        let _ = watch(c.st, len, "read_bi2", || p.read_bi2(&mut r))?;
        let _ = watch(c.st, len, "read_apploader", || p.read_apploader(&mut r))?;
        let _ = watch(c.st, len, "read_dol", || p.read_dol(&mut r))?;
        let dir = c.scratch.join("sysfiles");
        if c.rng.chance(1, 3) {
            let _ = std::fs::create_dir_all(&dir);
            let _ = watch(c.st, len, "extract_system_files", || p.extract_system_files(&dir, &mut r))?;
        }
        // every node is visited; some files are read
        let fst: Fst = watch(c.st, len, "cloning the tree", || p.get_fst().clone())?;
        let mut files: Vec<(String, u64, u32)> = vec![];
        watch(c.st, len, "visiting the tree", || {
            let _: Result<(), ()> = fst.callback_all_files(&mut |path, n| {
                if let FstNode::File { offset, length, .. } = n {
                    if files.len() < 200 && path.len() < 100 {
                        files.push((path.join("/"), *offset, *length));
                    }
                }
                Ok(())
            });
        })?;
        c.rng.shuffle(&mut files);
        for (path, off, l) in files.into_iter().take(5) {
            let mut buf = vec![];
            let _ = watch(c.st, len, "read_into_vec", || p.get_crypto_reader(&mut r).read_into_vec(off, l as u64, &mut buf))?;
            let pos = c.rng.below(1 << 34);
            watch(c.st, len, "reading a file window", || {
                if let Some(mut f) = p.open_file(&mut r, &path) {
                    let mut v = vec![];
                    let _ = f.by_ref().take(1 << 20).read_to_end(&mut v);
                    let _ = f.seek(SeekFrom::End(-1));
                    let mut b = [0; 8];
                    let _ = f.read(&mut b);
                    let _ = f.seek(SeekFrom::Start(pos));
                    let _ = f.read(&mut b);
                    let _ = f.read_exact(&mut b);
                }
            })?;
            c.st.add("files read", 1);
        }
        let (off, l) = (c.rng.below(1 << 34), (1u64 << c.rng.below(35)) - 1);
        let _ = watch(c.st, len, "read_into_vec anywhere", || {
            let mut v = vec![];
            p.get_crypto_reader(&mut r).read_into_vec(off, l, &mut v)
        })?;
    }
    Ok(())
}

pub fn deep_chain(rng: &mut Rng, d: usize) -> Vec<u8> {
    let n = d as u32 + 1;
    let mut t = vec![0u8; n as usize * 12];
    put32(&mut t, 0, 1 << 24);
    put32(&mut t, 8, n);
    for i in 1..n {
        let o = i as usize * 12;
        put32(&mut t, o, 1 << 24);
        put32(&mut t, o + 4, i - 1);
        put32(&mut t, o + 8, n);
    }
    t.push(if rng.chance(1, 2) { b'd' } else { 0 });
    t.extend([0; 8]);
    t
}

/// a file table with broken counts, indices, names or kinds
fn hostile_table(rng: &mut Rng, max_nodes: usize) -> Vec<u8> {
    let mut tree = gen::tree(
        rng,
        TreeParams {
            max_nodes,
            max_depth: 6,
            sorted: false,
            allow_empty_dirs: true,
            fancy: true,
        },
    );
    let mut r = rng.fork();
    for_each_file_mut(&mut tree, &mut |_, o, l| {
        *o = (r.next() as u32 as u64) << 2;
        *l = weird32(&mut r);
    });
    let n = tree_nodes(&tree).len() + 1;
    let mut t = fst_encode(&tree, NameLayout::default());
    for _ in 0..rng.range(1, 5) {
        let i = if rng.chance(1, 4) { 0 } else { rng.below(n as u64) as usize };
        let o = i * 12;
        match rng.below(8) {
            0 => t[o] = *rng.pick(&[0u8, 1, 2, 0xff]),
            1 => corrupt_u32(rng, &mut t, o),
            2 => corrupt_u32(rng, &mut t, o + 4),
            3 | 4 | 5 => {
                let v = match rng.below(8) {
                    0 => i as u32,
                    1 => i as u32 + 1,
                    2 => (i as u32).wrapping_sub(1),
                    3 => n as u32,
                    4 => n as u32 + 1,
                    5 => rng.below(n as u64 + 3) as u32,
                    _ => weird32(rng),
                };
                put32(&mut t, o + 8, v);
                if rng.chance(1, 2) {
                    t[o] = 1;
                }
            }
            6 => {
                // names: invalid Shift-JIS, missing terminator
                let at = n * 12;
                for x in t[at..].iter_mut() {
                    if rng.chance(1, 3) {
                        *x = *rng.pick(&[0x80u8, 0xa0, 0xfd, 0xff, 0x81, b'/', b'.', 0, 0xef]);
                    }
                }
            }
            _ => {
                let keep = rng.below(t.len() as u64 + 1) as usize;
                t.truncate(keep);
                return t;
            }
        }
    }
    t
}

fn tables(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let mut deep = false;
    let t = match rng.below(12) {
        0 => {
            deep = true;
            let d = *rng.pick(&[1500usize, 3000, 10_000, 100_000, 400_000]);
            deep_chain(rng, d)
        }
        1 => {
            let n = rng.below(400) as usize;
            rng.bytes(n)
        }
        2 => {
            // plausible root, random nodes
            let n = rng.below(2000) as usize;
            let mut t = rng.bytes(n * 12 + 40);
            put32(&mut t, 0, 1 << 24);
            put32(&mut t, 4, 0);
            let cnt = if rng.chance(1, 2) { n as u32 } else { weird32(rng) };
            put32(&mut t, 8, cnt);
            for i in 1..n {
                t[i * 12] &= 1;
                // name somewhere near
                put16(&mut t, i * 12 + 1, 0);
                if rng.chance(1, 2) {
                    put32(&mut t, i * 12 + 8, i as u32 + rng.below(50) as u32);
                }
            }
            t
        }
        3 => {
            // huge counts over a short table
            let mut t = vec![0u8; 12 * rng.range(1, 5) as usize];
            put32(&mut t, 0, 1 << 24);
            put32(&mut t, 8, *rng.pick(&[0xffff_ffffu32, 0x8000_0000, 0x1000_0000, 0x0100_0000, 5]));
            t
        }
        _ => hostile_table(rng, 120),
    };
    c.st.add("tables", 1);
    if deep {
        c.st.add("deep tables", 1);
    }
    c.st.distinct(hash_bytes(&t));
    let len = t.len();
    let at = *rng.pick(&[0u64, 0, 4, 1 << 33]);
    let mut b = vec![0u8; if at < 100 { at as usize } else { 0 }];
    b.extend(&t);
    let mut s = Store::new(b);
    s.op_limit = 60_000_000;
    let describe = || format!("{} byte table starting {:02x?}", len, &t[..len.min(48)]);
    let r = watch(c.st, len, "Fst::read", || Fst::read(&mut s, at)).map_err(|e| format!("{e} ({})", describe()))?;
    if let Ok(f) = r {
        c.st.add("tables read", 1);
        watch(c.st, len, "using a table that was read", || {
            let _: Result<(), ()> = f.callback_all_files(&mut |_, _| Ok(()));
            let _ = f.find_node_path("a/b");
            let mut g = f.clone();
            g.fix_ordering();
            if let Ok(b) = disc_riider::FstToBytes::try_from(g) {
                let mut o = Cursor::new(vec![]);
                let _ = b.write_to(&mut o);
            }
            drop(f);
        })
        .map_err(|e| format!("{e} ({})", describe()))?;
    }
    Ok(())
}

fn mutate_bytes(rng: &mut Rng, b: &mut Vec<u8>) {
    match rng.below(8) {
        0 => {
            let n = rng.below(b.len() as u64 + 1) as usize;
            b.truncate(n);
        }
        1 => {
            let n = rng.below(3000) as usize;
            *b = rng.bytes(n);
        }
        2 => {
            let n = b.len();
            *b = vec![*rng.pick(&[0u8, 0xff, 0x20]); n];
        }
        _ => {
            for _ in 0..rng.range(1, 4) {
                if b.len() >= 4 {
                    let i = rng.below(b.len() as u64 - 3) as usize & !(if rng.chance(1, 2) { 3 } else { 0 });
                    corrupt_u32(rng, b, i);
                }
            }
        }
    }
}

fn records(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let mut b = match rng.below(6) {
        0 => gen::ticket(rng),
        1 => gen::tmd(rng, 2),
        2 => gen::certs(rng),
        3 => gen::disc_header(rng),
        4 => {
            let mut t = gen::ticket(rng);
            t.extend(rng.bytes(28));
            t
        }
        _ => gen::dol(rng, 0x120),
    };
    // the fields that steer parsing get extra attention
    match rng.below(6) {
        0 if b.len() > 0x1F1 => b[0x1F1] = *rng.pick(&[2u8, 0x7f, 0xff]),
        1 if b.len() > 0x1E0 => put16(&mut b, 0x1DE, *rng.pick(&[0u16, 0xffff, 100])),
        2 if b.len() > 0x70 => {
            let e = b.len().min(*rng.pick(&[0x60usize, 0x61, 0x400]));
            b[0x20..e].fill(*rng.pick(&[b'x', 0xff, 0x81]));
        }
        _ => mutate_bytes(rng, &mut b),
    }
    c.st.add("records", 1);
    c.st.distinct(hash_bytes(&b));
    let len = b.len();
    let show = format!("{:02x?}...", &b[..len.min(16)]);
    macro_rules! each {
        ($($t:ty),*) => {$(
            watch(c.st, len, concat!("reading a ", stringify!($t)), || {
                let v = Cursor::new(&b[..]).read_be::<$t>();
                if let Ok(v) = v {
                    let mut o = Cursor::new(vec![]);
                    let _ = o.write_be(&v);
                }
            }).map_err(|e| format!("{e} ({len} bytes {show})"))?;
        )*};
    }
    use disc_riider::structs::{Certificate, DiscHeader, Ticket, TMD};
    each!(Ticket, TMD, Certificate, [Certificate; 3], DiscHeader, WiiPartitionHeader, DOLHeader, ApploaderHeader);
    Ok(())
}

fn directories(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    let rng = &mut rng;
    let tree = gen::tree(
        rng,
        TreeParams {
            max_nodes: 5,
            max_depth: 3,
            sorted: true,
            allow_empty_dirs: true,
            fancy: false,
        },
    );
    let files = gen::contents(rng, &tree, 2000);
    let mut s = gen::sys(rng, None);
    let root = c.scratch.join("src");
    let mut note = vec![];
    let mut region: Option<Vec<u8>> = None;
    for _ in 0..rng.range(1, 2) {
        match rng.below(10) {
            0 => {
                mutate_bytes(rng, &mut s.header);
                note.push("boot.bin");
            }
            1 => {
                let e = s.header.len().min(*rng.pick(&[0x60usize, 0x61, 0x400, 0x440]));
                s.header[0x20..e].fill(*rng.pick(&[b'x', 0xff, 0xe3]));
                note.push("title");
            }
            2 => {
                mutate_bytes(rng, &mut s.ticket);
                note.push("ticket.bin");
            }
            3 => {
                if s.ticket.len() > 0x1F1 {
                    s.ticket[0x1F1] = *rng.pick(&[2u8, 3, 0xff]);
                }
                note.push("common key");
            }
            4 => {
                mutate_bytes(rng, &mut s.tmd);
                note.push("tmd.bin");
            }
            5 => {
                // TMDs of every size, including none and more than fits before the hash table
                let n = *rng.pick(&[0usize, 0, 1, 100, 700, 800, 840, 860, 880, 1000, 5000, 0xffff]);
                s.tmd = gen::tmd(rng, n);
                note.push("TMD content count");
            }
            6 => {
                mutate_bytes(rng, &mut s.certs);
                note.push("cert.bin");
            }
            7 => {
                mutate_bytes(rng, &mut s.dol);
                note.push("main.dol");
            }
            8 => {
                mutate_bytes(rng, &mut s.apploader);
                mutate_bytes(rng, &mut s.bi2);
                if rng.chance(1, 3) {
                    let n = rng.range(0, 0x5000) as usize;
                    s.bi2 = rng.bytes(n);
                }
                note.push("apploader.img, bi2.bin");
            }
            _ => {
                let n = rng.below(64) as usize;
                region = Some(rng.bytes(n));
                note.push("region.bin");
            }
        }
    }
    write_dir(rng, &root, &s, &tree, &files).map_err(|e| format!("HARNESS: {e}"))?;
    if let Some(r) = region {
        std::fs::write(root.join("DATA/disc/region.bin"), r).map_err(|e| format!("HARNESS: {e}"))?;
    }
    let d = note.join(", ");
    let mut dest = Store::new(vec![]);
    dest.op_limit = 60_000_000;
    let r = watch(c.st, 4 << 20, "building", || build_on(&root, &mut dest)).map_err(|e| format!("{e} (directory with odd {d})"))?;
    c.st.add("directory builds", 1);
    c.st.distinct(hash_bytes(d.as_bytes()) ^ rng.next());
    if r.is_ok() {
        c.st.add("directory builds accepted", 1);
        let img = std::mem::take(&mut dest.data);
        exercise(c, img).map_err(|e| format!("{e} (image of a directory with odd {d})"))?;
    }
    c.st.sample(|| format!("directory with odd {d}"));
    Ok(())
}

fn build_on(root: &Path, dest: &mut Store) -> Result<(), String> {
    build_dir(root, dest, &mut |_| ())
}
