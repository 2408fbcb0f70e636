//! Bridges between the reference world and the library's public API.

use crate::gen::{Path as TPath, Sys};
use crate::refwii::*;
use crate::rng::Rng;
use binrw::BinReaderExt;
use disc_riider::builder::{build_from_directory, PartitionAddError, WiiDiscBuilder, WiiPartitionDefinition};
use disc_riider::structs::{Certificate, DiscHeader, Ticket, WiiPartType, TMD};
use disc_riider::{Fst, FstNode};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fs;
use std::io::{Cursor, Read, Seek, Write};
use std::path::Path;

pub fn to_fst_nodes(t: &[RNode]) -> Vec<FstNode> {
    t.iter()
        .map(|n| match n {
            RNode::File { name, off, len } => FstNode::File {
                name: name.clone(),
                offset: *off,
                length: *len,
            },
            RNode::Dir { name, kids } => FstNode::Directory {
                name: name.clone(),
                files: to_fst_nodes(kids),
            },
        })
        .collect()
}

pub fn to_fst(t: &[RNode]) -> Fst {
    let mut f = Fst::new();
    *f.get_entries_mut() = to_fst_nodes(t);
    f
}

pub fn from_nodes(v: &[FstNode]) -> Vec<RNode> {
    v.iter()
        .map(|n| match n {
            FstNode::File { name, offset, length } => RNode::File {
                name: name.clone(),
                off: *offset,
                len: *length,
            },
            FstNode::Directory { name, files } => RNode::Dir {
                name: name.clone(),
                kids: from_nodes(files),
            },
        })
        .collect()
}

pub fn from_fst(f: &Fst) -> Vec<RNode> {
    from_nodes(f.get_entries())
}

pub fn kind_of(k: u32) -> WiiPartType {
    match k {
        0 => WiiPartType::Data,
        1 => WiiPartType::Update,
        _ => WiiPartType::Channel,
    }
}

pub fn kind_no(k: WiiPartType) -> u32 {
    match k {
        WiiPartType::Data => 0,
        WiiPartType::Update => 1,
        WiiPartType::Channel => 2,
    }
}

pub fn parse_ticket(b: &[u8]) -> binrw::BinResult<Ticket> {
    Cursor::new(b).read_be()
}
pub fn parse_tmd(b: &[u8]) -> binrw::BinResult<TMD> {
    Cursor::new(b).read_be()
}
pub fn parse_certs(b: &[u8]) -> binrw::BinResult<[Certificate; 3]> {
    Cursor::new(b).read_be()
}
pub fn parse_header(b: &[u8]) -> binrw::BinResult<DiscHeader> {
    Cursor::new(b).read_be()
}

#[derive(Debug)]
pub struct DefErr(pub String);
impl std::fmt::Display for DefErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DefErr {}

/// what a definition may fail at
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FailAt {
    Never,
    Header,
    Bi2,
    Apploader,
    Fst,
    Dol,
    File(usize),
}

/// Monitored partition definition: answers from a table, records every request.
pub struct Def<'d> {
    pub sys: &'d Sys,
    /// the tree handed to the builder (with whatever placeholder offsets/lengths it carries)
    pub tree: Vec<RNode>,
    pub files: &'d BTreeMap<TPath, Vec<u8>>,
    pub pads: BTreeMap<TPath, u32>,
    pub calls: Vec<TPath>,
    pub fail: FailAt,
    /// shared event sink: (progress value or file request)
    pub events: Option<&'d std::cell::RefCell<Vec<Event>>>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Progress(u8),
    File(usize),
}

impl<'d> Def<'d> {
    pub fn new(sys: &'d Sys, tree: &[RNode], files: &'d BTreeMap<TPath, Vec<u8>>) -> Self {
        Def {
            sys,
            tree: tree.to_vec(),
            files,
            pads: BTreeMap::new(),
            calls: vec![],
            fail: FailAt::Never,
            events: None,
        }
    }
    fn fail_if(&self, at: FailAt) -> Result<(), PartitionAddError<DefErr>> {
        if self.fail == at {
            Err(PartitionAddError::Custom(DefErr(format!("injected at {at:?}"))))
        } else {
            Ok(())
        }
    }
}

type R<T> = Result<T, PartitionAddError<DefErr>>;

impl<'d> WiiPartitionDefinition<DefErr> for Def<'d> {
    fn get_disc_header(&mut self) -> R<DiscHeader> {
        self.fail_if(FailAt::Header)?;
        Ok(parse_header(&self.sys.header)?)
    }
    fn get_bi2<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        self.fail_if(FailAt::Bi2)?;
        Ok(Cow::Borrowed(&self.sys.bi2))
    }
    fn get_apploader<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        self.fail_if(FailAt::Apploader)?;
        Ok(Cow::Borrowed(&self.sys.apploader))
    }
    fn get_fst(&mut self) -> R<Fst> {
        self.fail_if(FailAt::Fst)?;
        Ok(to_fst(&self.tree))
    }
    fn get_dol<'a>(&'a mut self) -> R<Cow<'a, [u8]>> {
        self.fail_if(FailAt::Dol)?;
        Ok(Cow::Borrowed(&self.sys.dol))
    }
    fn get_file_data<'a>(&'a mut self, path: &Vec<String>) -> R<(Cow<'a, [u8]>, u32)> {
        self.fail_if(FailAt::File(self.calls.len()))?;
        self.calls.push(path.clone());
        if let Some(e) = self.events {
            e.borrow_mut().push(Event::File(self.calls.len()));
        }
        match self.files.get(path) {
            Some(d) => Ok((
                Cow::Borrowed(&d[..]),
                self.pads.get(path).copied().unwrap_or(0),
            )),
            None => Err(PartitionAddError::Custom(DefErr(format!(
                "builder asked for a path that is not in the tree: {path:?}"
            )))),
        }
    }
}

pub fn add_def<WS: Read + Write + Seek>(
    b: &mut WiiDiscBuilder<WS>,
    kind: u32,
    def: &mut Def,
    cb: &mut dyn FnMut(u8),
) -> Result<(), String> {
    let t = parse_ticket(&def.sys.ticket).map_err(|e| format!("ticket rejected: {e}"))?;
    let tmd = parse_tmd(&def.sys.tmd).map_err(|e| format!("TMD rejected: {e}"))?;
    let c = parse_certs(&def.sys.certs).map_err(|e| format!("certificates rejected: {e}"))?;
    b.add_partition(kind_of(kind), t, tmd, c, def, &mut |p| cb(p))
        .map_err(|e| format!("add_partition: {e}"))
}

/// Builds a one-partition image from a definition
pub fn build_def<WS: Read + Write + Seek>(ws: WS, kind: u32, def: &mut Def, cb: &mut dyn FnMut(u8)) -> Result<(), String> {
    let h = parse_header(&def.sys.header).map_err(|e| format!("header rejected: {e}"))?;
    let mut b = WiiDiscBuilder::create(ws, h, def.sys.region);
    add_def(&mut b, kind, def, cb)?;
    b.finish().map_err(|e| format!("finish: {e}"))
}

/// Writes an extracted-disc directory, creating entries in random order.
pub fn write_dir(rng: &mut Rng, root: &Path, sys: &Sys, tree: &[RNode], files: &BTreeMap<TPath, Vec<u8>>) -> std::io::Result<()> {
    let data = root.join("DATA");
    let mut jobs: Vec<(std::path::PathBuf, Option<&[u8]>)> = vec![
        (data.join("sys/boot.bin"), Some(&sys.header)),
        (data.join("sys/bi2.bin"), Some(&sys.bi2)),
        (data.join("sys/apploader.img"), Some(&sys.apploader)),
        (data.join("sys/main.dol"), Some(&sys.dol)),
        (data.join("disc/region.bin"), Some(&sys.region)),
        (data.join("ticket.bin"), Some(&sys.ticket)),
        (data.join("tmd.bin"), Some(&sys.tmd)),
        (data.join("cert.bin"), Some(&sys.certs)),
        (data.join("files"), None),
    ];
    for (p, is_dir) in tree_nodes(tree) {
        let mut fp = data.join("files");
        for c in &p {
            fp.push(c);
        }
        jobs.push((fp, if is_dir { None } else { Some(&files[&p]) }));
    }
    // things lying about that a build has no use for, some of them named like something it might want
    let mut other = sys.header.clone();
    for b in other.iter_mut().take(0x80) {
        *b ^= 0x15;
    }
    let junk = rng.bytes(700);
    let by: [(&str, &[u8]); 12] = [
        ("DATA/disc/header.bin", &other),
        ("DATA/disc/boot.bin", &other),
        ("DATA/boot.bin", &other),
        ("DATA/sys/header.bin", &other),
        ("DATA/sys/fst.bin", &junk),
        ("DATA/sys/region.bin", &junk),
        ("DATA/sys/main.dol.bak", &junk),
        ("DATA/setup.txt", b"setup = 2\n"),
        ("DATA/h3.bin", &junk),
        ("UPDATE/files/__update.inf", &junk),
        ("UPDATE/sys/boot.bin", &other),
        ("boot.bin", &other),
    ];
    if rng.chance(1, 3) {
        for (n, b) in by {
            if rng.chance(1, 2) {
                jobs.push((root.join(n), Some(b)));
            }
        }
    }
    rng.shuffle(&mut jobs);
    for (p, c) in jobs {
        match c {
            None => fs::create_dir_all(&p)?,
            Some(b) => {
                fs::create_dir_all(p.parent().unwrap())?;
                fs::write(&p, b)?;
            }
        }
    }
    Ok(())
}

pub fn build_dir<WS: Read + Write + Seek>(root: &Path, ws: &mut WS, cb: &mut dyn FnMut(u8)) -> Result<(), String> {
    build_from_directory(root, ws, &mut |p| cb(p)).map_err(|e| format!("{e}"))
}

pub fn build_dir_mem(root: &Path) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(Vec::new());
    build_dir(root, &mut c, &mut |_| ())?;
    Ok(c.into_inner())
}

/// drops empty directories (recursively), as a directory scan does
pub fn prune(t: &[RNode]) -> Vec<RNode> {
    t.iter()
        .filter_map(|n| match n {
            RNode::Dir { name, kids } => {
                let k = prune(kids);
                if k.is_empty() {
                    None
                } else {
                    Some(RNode::Dir {
                        name: name.clone(),
                        kids: k,
                    })
                }
            }
            f => Some(f.clone()),
        })
        .collect()
}

pub fn diff_at(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("length {} instead of {}", a.len(), b.len());
    }
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!(
            "first difference at {i:#x} of {:#x}: {:02x?} instead of {:02x?}",
            a.len(),
            &a[i..(i + 8).min(a.len())],
            &b[i..(i + 8).min(b.len())]
        ),
        None => "equal".into(),
    }
}

pub fn expect_eq(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {}", diff_at(got, want)))
    }
}

pub fn pathstr(p: &[String]) -> String {
    p.join("/")
}

/// header fields as the library reports them, rendered at their on-disc offsets
pub fn header_bytes(h: &DiscHeader) -> Vec<u8> {
    let mut b = vec![0u8; HDR_LEN];
    b[..6].copy_from_slice(&h.game_id);
    b[6] = h.disc_num;
    b[7] = h.disc_version;
    b[8] = h.audio_streaming;
    b[9] = h.audio_stream_buf_size;
    put32(&mut b, 0x18, h.wii_magic);
    put32(&mut b, 0x1C, h.gcn_magic);
    let t = h.game_title.as_bytes();
    let n = t.len().min(64);
    b[0x20..0x20 + n].copy_from_slice(&t[..n]);
    b[0x60] = h.disable_hash_verification;
    b[0x61] = h.disable_disc_enc;
    put32(&mut b, 0x400, h.debug_mon_off);
    put32(&mut b, 0x404, h.debug_load_addr);
    put32(&mut b, 0x420, (*h.dol_off >> 2) as u32);
    put32(&mut b, 0x424, (*h.fst_off >> 2) as u32);
    put32(&mut b, 0x428, (*h.fst_sz >> 2) as u32);
    put32(&mut b, 0x42C, (*h.fst_max_sz >> 2) as u32);
    put32(&mut b, 0x430, h.fst_memory_address);
    put32(&mut b, 0x434, h.user_position);
    put32(&mut b, 0x438, h.user_sz);
    b
}

/// ticket fields as the library reports them, at their on-disc offsets (stored key left out)
pub fn ticket_bytes(t: &Ticket) -> Vec<u8> {
    let mut b = vec![0u8; TICKET_LEN];
    put32(&mut b, 0, t.sig_type as u32);
    b[4..0x104].copy_from_slice(&t.sig);
    b[0x140..0x180].copy_from_slice(&t.sig_issuer);
    b[0x180..0x1BC].copy_from_slice(&t.ecdh);
    b[0x1D0..0x1D8].copy_from_slice(&t.ticket_id);
    b[0x1D8..0x1DC].copy_from_slice(&t.console_id);
    b[0x1DC..0x1E4].copy_from_slice(&t.title_id);
    put16(&mut b, 0x1E4, t.unk);
    put16(&mut b, 0x1E6, t.ticket_version);
    put32(&mut b, 0x1E8, t.permitted_titles_mask);
    put32(&mut b, 0x1EC, t.permit_mask);
    b[0x1F0] = t.title_export_allowed;
    b[0x1F1] = t.common_key_idx;
    b[0x222..0x262].copy_from_slice(&t.content_access_permissions);
    put16(&mut b, 0x262, t.unk2);
    for (i, l) in t.time_limits.iter().enumerate() {
        put32(&mut b, 0x264 + i * 8, l.enable_time_limit);
        put32(&mut b, 0x268 + i * 8, l.time_limit);
    }
    b
}

/// blanks the padding (and the stored key, which is compared through the title key)
pub fn ticket_defined(b: &[u8]) -> Vec<u8> {
    let mut b = b[..TICKET_LEN].to_vec();
    b[0x104..0x140].fill(0);
    b[0x1BC..0x1D0].fill(0);
    b[0x1F2..0x222].fill(0);
    b
}

pub fn tmd_bytes(t: &TMD) -> Vec<u8> {
    let mut b = vec![0u8; 0x1E4 + t.contents.len() * 36];
    put32(&mut b, 0, t.sig_type as u32);
    b[4..0x104].copy_from_slice(&t.sig);
    b[0x140..0x180].copy_from_slice(&t.sig_issuer);
    b[0x180] = t.version;
    b[0x181] = t.ca_crl_version;
    b[0x182] = t.signer_crl_version;
    put32(&mut b, 0x184, t.ios_id_major);
    put32(&mut b, 0x188, t.ios_id_minor);
    put32(&mut b, 0x18C, t.title_id_major);
    b[0x190..0x194].copy_from_slice(&t.title_id_minor);
    put32(&mut b, 0x194, t.title_type);
    put16(&mut b, 0x198, t.group_id);
    for (i, v) in t.fakesign_padding.iter().enumerate() {
        b[0x19A + i * 8..0x1A2 + i * 8].copy_from_slice(&v.to_be_bytes());
    }
    put32(&mut b, 0x1D8, t.access_flags);
    put16(&mut b, 0x1DC, t.title_version);
    put16(&mut b, 0x1DE, t.contents.len() as u16);
    put16(&mut b, 0x1E0, t.boot_idx);
    for (i, c) in t.contents.iter().enumerate() {
        let o = 0x1E4 + i * 36;
        put32(&mut b, o, c.id);
        put16(&mut b, o + 4, c.index);
        put16(&mut b, o + 6, c.content_type);
        b[o + 8..o + 16].copy_from_slice(&c.size.to_be_bytes());
        b[o + 16..o + 36].copy_from_slice(&c.hash);
    }
    b
}

pub fn cert_bytes(c: &Certificate) -> Vec<u8> {
    let mut b = (c.sig_type as u32).to_be_bytes().to_vec();
    b.extend(&c.sig);
    b.extend([0; 60]);
    b.extend(&c.issuer);
    b.extend((c.key_type as u32).to_be_bytes());
    b.extend(&c.subject);
    b.extend(&c.key);
    b.extend(c.modulus.to_be_bytes());
    b.extend(c.pub_exp.to_be_bytes());
    b.extend([0; 52]);
    b
}

pub fn certs_bytes(c: &[Certificate; 3]) -> Vec<u8> {
    c.iter().flat_map(cert_bytes).collect()
}

/// blanks what a build legitimately changes in a TMD
pub fn tmd_carried(b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    b[4..0x104].fill(0); // signature
    b[0x19A..0x1A2].fill(0); // fake-sign counter
    if b.len() >= 0x208 {
        b[0x1EC..0x208].fill(0); // first content: size and hash
    }
    b
}
