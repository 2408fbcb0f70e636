//! Helpers shared by the demonstrations: synthetic system files, builds, a hash-tree checker and
//! streams that misbehave. Everything stays in memory or in the scratch directory given by the caller.
#![allow(dead_code, unstable_name_collisions)]
use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, KeyIvInit};
use binrw::BinReaderExt;
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use sha1::{Digest, Sha1};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::path::Path;

pub type Dec = cbc::Decryptor<aes::Aes128>;
pub const GRP: usize = 0x200000;
pub const GRPD: usize = 0x1F0000;

pub fn fill(n: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345) | 1;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 17;
            x ^= x << 5;
            (x >> 11) as u8
        })
        .collect()
}

#[derive(Clone)]
pub struct Sys {
    pub header: Vec<u8>,
    pub bi2: Vec<u8>,
    pub apploader: Vec<u8>,
    pub dol: Vec<u8>,
    pub region: Vec<u8>,
    pub ticket: Vec<u8>,
    pub tmd: Vec<u8>,
    pub certs: Vec<u8>,
}

pub fn sys(seed: u32) -> Sys {
    let mut header = vec![0; 0x440];
    header[..6].copy_from_slice(b"DEMO01");
    header[0x18..0x1c].copy_from_slice(&0x5D1C9EA3u32.to_be_bytes());
    header[0x20..0x2a].copy_from_slice(b"Demo Title");
    let mut apploader = fill(0x20 + 0x300, seed + 1);
    apploader[0x14..0x18].copy_from_slice(&0x200u32.to_be_bytes());
    apploader[0x18..0x1c].copy_from_slice(&0x100u32.to_be_bytes());
    let mut ticket = fill(0x2A4, seed + 2);
    ticket[..4].copy_from_slice(&0x10001u32.to_be_bytes());
    ticket[0x104..0x140].fill(0);
    ticket[0x1BC..0x1BF].fill(0);
    ticket[0x1CF] = 0;
    ticket[0x1F1] = 0;
    ticket[0x1F2..0x222].fill(0);
    let mut tmd = fill(0x1E4 + 36, seed + 3);
    tmd[..4].copy_from_slice(&0x10001u32.to_be_bytes());
    tmd[0x1DE..0x1E0].copy_from_slice(&1u16.to_be_bytes());
    Sys {
        header,
        bi2: fill(0x2000, seed + 4),
        apploader,
        dol: dol(0x400, seed + 5),
        region: fill(32, seed + 6),
        ticket,
        tmd,
        certs: (0..3).flat_map(|i| cert(0x10001, 256, seed + 7 + i)).collect(),
    }
}

/// a DOL of 0x100 header bytes and one text section
pub fn dol(len: usize, seed: u32) -> Vec<u8> {
    let mut d = fill(len, seed);
    d[..0x100].fill(0);
    d[..4].copy_from_slice(&0x100u32.to_be_bytes());
    d[0x90..0x94].copy_from_slice(&(len as u32 - 0x100).to_be_bytes());
    d
}

pub fn cert(sig_type: u32, sig: usize, seed: u32) -> Vec<u8> {
    let mut b = sig_type.to_be_bytes().to_vec();
    b.extend(fill(sig, seed));
    b.extend([0; 60]);
    b.extend(fill(0x40, seed + 1));
    b.extend(1u32.to_be_bytes());
    b.extend(fill(64, seed + 2));
    b.extend(fill(256, seed + 3));
    b.extend(fill(8, seed + 4));
    b.extend([0; 52]);
    b
}

pub fn write_dir(root: &Path, s: &Sys, files: &[(&str, Vec<u8>)]) {
    let w = |p: &str, d: &[u8]| {
        let p = root.join("DATA").join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, d).unwrap();
    };
    w("sys/boot.bin", &s.header);
    w("sys/bi2.bin", &s.bi2);
    w("sys/apploader.img", &s.apploader);
    w("sys/main.dol", &s.dol);
    w("disc/region.bin", &s.region);
    w("ticket.bin", &s.ticket);
    w("tmd.bin", &s.tmd);
    w("cert.bin", &s.certs);
    std::fs::create_dir_all(root.join("DATA/files")).unwrap();
    for (n, d) in files {
        w(&format!("files/{n}"), d);
    }
}

pub fn build_dir(root: &Path) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    build_from_directory(root, &mut c, &mut |_| ()).expect("build");
    c.into_inner()
}

#[derive(Debug)]
pub struct Stop;
impl std::fmt::Display for Stop {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "stop")
    }
}
impl std::error::Error for Stop {}

/// a partition definition answering from memory
pub struct Def {
    pub sys: Sys,
    pub fst: Fst,
    pub files: BTreeMap<String, (Vec<u8>, u32)>,
    pub stop_at: Option<String>,
}

impl Def {
    pub fn new(sys: &Sys, files: &[(&str, Vec<u8>, u32)]) -> Def {
        let mut fst = Fst::new();
        let mut m = BTreeMap::new();
        for (n, d, p) in files {
            let (dir, name) = n.rsplit_once('/').unwrap_or(("", n));
            fst.add_node_path(
                dir,
                FstNode::File {
                    name: name.into(),
                    offset: 0,
                    length: d.len() as u32,
                },
            )
            .unwrap();
            m.insert(n.to_string(), (d.clone(), *p));
        }
        Def {
            sys: sys.clone(),
            fst,
            files: m,
            stop_at: None,
        }
    }
}

type R<T> = Result<T, PartitionAddError<Stop>>;
impl WiiPartitionDefinition<Stop> for Def {
    fn get_disc_header(&mut self) -> R<DiscHeader> {
        Ok(Cursor::new(&self.sys.header).read_be()?)
    }
    fn get_bi2<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        Ok(Cow::Borrowed(&self.sys.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        Ok(Cow::Borrowed(&self.sys.apploader))
    }
    fn get_fst(&mut self) -> R<Fst> {
        Ok(self.fst.clone())
    }
    fn get_dol<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        Ok(Cow::Borrowed(&self.sys.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> R<(Cow<'a, [u8]>, u32)> {
        let k = path.join("/");
        if self.stop_at.as_deref() == Some(&k) {
            return Err(PartitionAddError::Custom(Stop));
        }
        let (d, p) = &self.files[&k];
        Ok((Cow::Borrowed(&d[..]), *p))
    }
}

pub fn add<WS: Read + Write + Seek>(b: &mut WiiDiscBuilder<WS>, kind: WiiPartType, d: &mut Def) -> R<()> {
    let t = Cursor::new(&d.sys.ticket).read_be().unwrap();
    let tmd = Cursor::new(&d.sys.tmd).read_be().unwrap();
    let c = Cursor::new(&d.sys.certs).read_be().unwrap();
    b.add_partition(kind, t, tmd, c, d, &mut |_| ())
}

pub fn builder<WS: Read + Write + Seek>(ws: WS, s: &Sys) -> WiiDiscBuilder<WS> {
    let h = Cursor::new(&s.header).read_be().unwrap();
    WiiDiscBuilder::create(ws, h, s.region.clone().try_into().unwrap())
}

pub fn build_def(d: &mut Def) -> Vec<u8> {
    let mut c = Cursor::new(Vec::new());
    let s = d.sys.clone();
    let mut b = builder(&mut c, &s);
    add(&mut b, WiiPartType::Data, d).expect("add_partition");
    b.finish().expect("finish");
    c.into_inner()
}

/// every file of partition `i`
pub fn read_all(img: &[u8], i: usize) -> BTreeMap<String, Vec<u8>> {
    let mut r = WiiIsoReader::open(Cursor::new(img)).expect("open image");
    let e = r.partitions()[i].clone();
    let mut p = r.open_partition(e).expect("open partition");
    let mut names = vec![];
    p.get_fst()
        .callback_all_files::<(), _>(&mut |n, node| {
            if let FstNode::File { offset, length, .. } = node {
                names.push((n.join("/"), *offset, *length));
            }
            Ok(())
        })
        .unwrap();
    names
        .into_iter()
        .map(|(n, o, l)| {
            let mut v = vec![];
            p.get_crypto_reader(&mut r).read_into_vec(o, l as u64, &mut v).expect("read file");
            (n, v)
        })
        .collect()
}

pub fn offsets(img: &[u8], i: usize) -> BTreeMap<String, (u64, u32)> {
    let mut r = WiiIsoReader::open(Cursor::new(img)).expect("open image");
    let e = r.partitions()[i].clone();
    let p = r.open_partition(e).expect("open partition");
    let mut names = BTreeMap::new();
    p.get_fst()
        .callback_all_files::<(), _>(&mut |n, node| {
            if let FstNode::File { offset, length, .. } = node {
                names.insert(n.join("/"), (*offset, *length));
            }
            Ok(())
        })
        .unwrap();
    names
}

pub fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap())
}

pub fn sha(b: &[u8]) -> Vec<u8> {
    Sha1::digest(b).to_vec()
}

pub fn title_key(part: &[u8]) -> [u8; 16] {
    let mut k: [u8; 16] = part[0x1BF..0x1CF].try_into().unwrap();
    let mut iv = [0; 16];
    iv[..8].copy_from_slice(&part[0x1DC..0x1E4]);
    Dec::new(&COMMON_KEYS[part[0x1F1] as usize].into(), &iv.into())
        .decrypt_padded_mut::<NoPadding>(&mut k)
        .unwrap();
    k
}

/// checks the hash tree of a partition starting at `off`; returns what is wrong
pub fn check_hashes(img: &[u8], off: usize) -> Result<usize, String> {
    let part = &img[off..];
    let key = title_key(part);
    let h3o = (be32(part, 0x2B4) as usize) << 2;
    let dato = (be32(part, 0x2B8) as usize) << 2;
    let size = (be32(part, 0x2BC) as usize) << 2;
    let groups = size / GRPD;
    for g in 0..groups {
        let mut buf = part[dato + g * GRP..][..GRP].to_vec();
        for b in buf.chunks_mut(0x8000) {
            let iv: [u8; 16] = b[0x3D0..0x3E0].try_into().unwrap();
            Dec::new(&key.into(), &iv.into()).decrypt_padded_mut::<NoPadding>(&mut b[0x400..]).unwrap();
            Dec::new(&key.into(), &[0u8; 16].into()).decrypt_padded_mut::<NoPadding>(&mut b[..0x400]).unwrap();
        }
        let mut h2 = vec![];
        for (s, sub) in buf.chunks(0x40000).enumerate() {
            let mut h1 = vec![];
            for (c, b) in sub.chunks(0x8000).enumerate() {
                let h0: Vec<u8> = b[0x400..].chunks(0x400).flat_map(sha).collect();
                if b[..620] != h0[..] {
                    return Err(format!("group {g}: H0 of block {} wrong", s * 8 + c));
                }
                h1.extend(sha(&h0));
            }
            for b in sub.chunks(0x8000) {
                if b[0x280..0x280 + 160] != h1[..] {
                    return Err(format!("group {g}: H1 of subgroup {s} wrong"));
                }
            }
            h2.extend(sha(&h1));
        }
        for b in buf.chunks(0x8000) {
            if b[0x340..0x340 + 160] != h2[..] {
                return Err(format!("group {g}: H2 wrong"));
            }
        }
        if part[h3o + g * 20..][..20] != sha(&h2)[..] {
            return Err(format!("group {g}: H3 entry wrong"));
        }
    }
    Ok(groups)
}

/// in-memory stream with programmable behaviour
#[derive(Default)]
pub struct Flaky {
    pub inner: Cursor<Vec<u8>>,
    pub fail_flush: bool,
    /// accept at most that many bytes per write
    pub max_write: Option<usize>,
    /// fail the read calls with these numbers, after handing out a few bytes
    pub fail_reads: Vec<usize>,
    pub reads: usize,
    /// snapshots of the contents before every write
    pub record: bool,
    pub log: Vec<(u64, Vec<u8>)>,
}

impl Read for Flaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.fail_reads.contains(&self.reads) {
            // a failing read may have touched the buffer already
            let n = b.len() / 2;
            let _ = self.inner.read(&mut b[..n]);
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        self.inner.read(b)
    }
}
impl Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.max_write.unwrap_or(usize::MAX));
        if self.record {
            self.log.push((self.inner.position(), b[..n].to_vec()));
        }
        self.inner.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.fail_flush {
            return Err(io::Error::new(io::ErrorKind::Other, "injected"));
        }
        Ok(())
    }
}
impl Seek for Flaky {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.inner.seek(p)
    }
}

pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("FAIL: {what}");
        std::process::exit(1);
    }
}
