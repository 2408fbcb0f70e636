//! Independent reference implementation of the Wii disc format, written from the public format
//! description and not from the code under test.  It can render images with layouts the library
//! itself never produces, and it can take any image apart and verify every hash.
//! Shared with the code under test: only the `aes`, `cbc`, `sha1` and `encoding_rs` crates.

use aes::cipher::{block_padding::NoPadding, BlockDecryptMut, BlockEncryptMut, KeyIvInit};
use sha1::{Digest, Sha1};

type Enc = cbc::Encryptor<aes::Aes128>;
type Dec = cbc::Decryptor<aes::Aes128>;

pub const COMMON: [[u8; 16]; 2] = [
    [
        0xeb, 0xe4, 0x2a, 0x22, 0x5e, 0x85, 0x93, 0xe4, 0x48, 0xd9, 0xc5, 0x45, 0x73, 0x81, 0xaa,
        0xf7,
    ],
    [
        0x63, 0xb8, 0x2b, 0xb4, 0xf4, 0x61, 0x4e, 0x2e, 0x13, 0xf2, 0xfe, 0xfb, 0xba, 0x4c, 0x9b,
        0x7e,
    ],
];

pub const BLK: usize = 0x8000;
pub const BLKD: usize = 0x7C00;
pub const GRP: usize = 0x200000;
pub const GRPD: usize = 0x1F0000;
pub const TICKET_LEN: usize = 0x2A4;
pub const PHDR_LEN: usize = 0x2C0;
pub const HDR_LEN: usize = 0x440;
pub const H3_LEN: usize = 0x18000;

pub fn sha1(b: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(b);
    let d = h.finalize();
    let mut o = [0; 20];
    o.copy_from_slice(d.as_slice());
    o
}

pub fn cbc_enc(key: &[u8; 16], iv: &[u8; 16], buf: &mut [u8]) {
    let n = buf.len();
    Enc::new(key.into(), iv.into())
        .encrypt_padded_mut::<NoPadding>(buf, n)
        .unwrap();
}

pub fn cbc_dec(key: &[u8; 16], iv: &[u8; 16], buf: &mut [u8]) {
    Dec::new(key.into(), iv.into())
        .decrypt_padded_mut::<NoPadding>(buf)
        .unwrap();
}

pub fn be32(b: &[u8], o: usize) -> u32 {
    u32::from_be_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn be16(b: &[u8], o: usize) -> u16 {
    u16::from_be_bytes(b[o..o + 2].try_into().unwrap())
}
pub fn be64(b: &[u8], o: usize) -> u64 {
    u64::from_be_bytes(b[o..o + 8].try_into().unwrap())
}
pub fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_be_bytes());
}
pub fn put16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_be_bytes());
}

/// Encrypts one group of plaintext (0x1F0000 bytes); returns ciphertext and H3 entry.
pub fn encode_group(plain: &[u8], key: &[u8; 16]) -> (Vec<u8>, [u8; 20]) {
    assert_eq!(plain.len(), GRPD);
    let mut out = vec![0u8; GRP];
    let mut h1s = [[0u8; 160]; 8];
    for b in 0..64 {
        let src = &plain[b * BLKD..(b + 1) * BLKD];
        let blk = &mut out[b * BLK..(b + 1) * BLK];
        blk[0x400..].copy_from_slice(src);
        for j in 0..31 {
            let d = sha1(&src[j * 0x400..(j + 1) * 0x400]);
            blk[j * 20..j * 20 + 20].copy_from_slice(&d);
        }
        let d = sha1(&blk[..0x26C]);
        h1s[b / 8][(b % 8) * 20..(b % 8) * 20 + 20].copy_from_slice(&d);
    }
    let mut h2 = [0u8; 160];
    for s in 0..8 {
        h2[s * 20..s * 20 + 20].copy_from_slice(&sha1(&h1s[s]));
    }
    for b in 0..64 {
        let blk = &mut out[b * BLK..(b + 1) * BLK];
        blk[0x280..0x320].copy_from_slice(&h1s[b / 8]);
        blk[0x340..0x3E0].copy_from_slice(&h2);
        let (hashes, data) = blk.split_at_mut(0x400);
        cbc_enc(key, &[0; 16], hashes);
        let iv: [u8; 16] = hashes[0x3D0..0x3E0].try_into().unwrap();
        cbc_enc(key, &iv, data);
    }
    (out, sha1(&h2))
}

/// Decrypts one group and verifies every hash; returns the plaintext.
pub fn verify_group(enc: &[u8], key: &[u8; 16], h3: &[u8]) -> Result<Vec<u8>, String> {
    group_decode(enc, key, Some(h3))
}

/// Decrypts one group; verifies the hash tree if the expected H3 entry is given.
pub fn group_decode(enc: &[u8], key: &[u8; 16], h3: Option<&[u8]>) -> Result<Vec<u8>, String> {
    assert_eq!(enc.len(), GRP);
    let mut plain = vec![0u8; GRPD];
    let mut hs: Vec<[u8; 0x400]> = Vec::with_capacity(64);
    for b in 0..64 {
        let blk = &enc[b * BLK..(b + 1) * BLK];
        let mut h: [u8; 0x400] = blk[..0x400].try_into().unwrap();
        let iv: [u8; 16] = blk[0x3D0..0x3E0].try_into().unwrap();
        cbc_dec(key, &[0; 16], &mut h);
        let d = &mut plain[b * BLKD..(b + 1) * BLKD];
        d.copy_from_slice(&blk[0x400..]);
        cbc_dec(key, &iv, d);
        hs.push(h);
    }
    let Some(h3) = h3 else {
        return Ok(plain);
    };
    let mut h2 = [0u8; 160];
    for s in 0..8 {
        let mut h1 = [0u8; 160];
        for c in 0..8 {
            let b = s * 8 + c;
            let d = &plain[b * BLKD..(b + 1) * BLKD];
            let mut h0 = [0u8; 0x26C];
            for j in 0..31 {
                h0[j * 20..j * 20 + 20].copy_from_slice(&sha1(&d[j * 0x400..(j + 1) * 0x400]));
            }
            if hs[b][..0x26C] != h0 {
                return Err(format!("block {b}: H0 table does not match the decrypted data"));
            }
            if hs[b][0x26C..0x280].iter().any(|x| *x != 0) {
                return Err(format!("block {b}: padding after H0 is not zero"));
            }
            h1[c * 20..c * 20 + 20].copy_from_slice(&sha1(&h0));
        }
        for c in 0..8 {
            let b = s * 8 + c;
            if hs[b][0x280..0x320] != h1 {
                return Err(format!("block {b}: H1 table wrong"));
            }
            if hs[b][0x320..0x340].iter().any(|x| *x != 0) {
                return Err(format!("block {b}: padding after H1 is not zero"));
            }
        }
        h2[s * 20..s * 20 + 20].copy_from_slice(&sha1(&h1));
    }
    for b in 0..64 {
        if hs[b][0x340..0x3E0] != h2 {
            return Err(format!("block {b}: H2 table wrong"));
        }
        if hs[b][0x3E0..0x400].iter().any(|x| *x != 0) {
            return Err(format!("block {b}: padding after H2 is not zero"));
        }
    }
    if sha1(&h2)[..] != *h3 {
        return Err("H3 entry does not match the group".into());
    }
    Ok(plain)
}

pub fn title_key_crypt(ticket: &[u8], stored: &[u8; 16], decrypt: bool) -> Option<[u8; 16]> {
    let idx = ticket[0x1F1] as usize;
    let common = COMMON.get(idx)?;
    let mut iv = [0u8; 16];
    iv[..8].copy_from_slice(&ticket[0x1DC..0x1E4]);
    let mut k = *stored;
    if decrypt {
        cbc_dec(common, &iv, &mut k);
    } else {
        cbc_enc(common, &iv, &mut k);
    }
    Some(k)
}

pub fn ticket_key(ticket: &[u8]) -> Option<[u8; 16]> {
    let stored: [u8; 16] = ticket[0x1BF..0x1CF].try_into().unwrap();
    title_key_crypt(ticket, &stored, true)
}

// ---------------------------------------------------------------------------------------------
// file tree

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RNode {
    File { name: String, off: u64, len: u32 },
    Dir { name: String, kids: Vec<RNode> },
}

impl RNode {
    pub fn name(&self) -> &str {
        match self {
            RNode::File { name, .. } | RNode::Dir { name, .. } => name,
        }
    }
}

pub fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.to_ascii_lowercase()).collect()
}

pub fn tree_files(nodes: &[RNode]) -> Vec<(Vec<String>, u64, u32)> {
    fn rec(nodes: &[RNode], path: &mut Vec<String>, out: &mut Vec<(Vec<String>, u64, u32)>) {
        for n in nodes {
            path.push(n.name().to_string());
            match n {
                RNode::File { off, len, .. } => out.push((path.clone(), *off, *len)),
                RNode::Dir { kids, .. } => rec(kids, path, out),
            }
            path.pop();
        }
    }
    let mut out = vec![];
    rec(nodes, &mut vec![], &mut out);
    out
}

/// all nodes, parents before children: (path, is_dir)
pub fn tree_nodes(nodes: &[RNode]) -> Vec<(Vec<String>, bool)> {
    fn rec(nodes: &[RNode], path: &mut Vec<String>, out: &mut Vec<(Vec<String>, bool)>) {
        for n in nodes {
            path.push(n.name().to_string());
            out.push((path.clone(), matches!(n, RNode::Dir { .. })));
            if let RNode::Dir { kids, .. } = n {
                rec(kids, path, out)
            }
            path.pop();
        }
    }
    let mut out = vec![];
    rec(nodes, &mut vec![], &mut out);
    out
}

pub fn tree_depth(nodes: &[RNode]) -> usize {
    nodes
        .iter()
        .map(|n| match n {
            RNode::File { .. } => 1,
            RNode::Dir { kids, .. } => 1 + tree_depth(kids),
        })
        .max()
        .unwrap_or(0)
}

pub fn for_each_file_mut(nodes: &mut [RNode], f: &mut dyn FnMut(&Vec<String>, &mut u64, &mut u32)) {
    fn rec(
        nodes: &mut [RNode],
        path: &mut Vec<String>,
        f: &mut dyn FnMut(&Vec<String>, &mut u64, &mut u32),
    ) {
        for n in nodes {
            path.push(n.name().to_string());
            match n {
                RNode::File { off, len, .. } => f(path, off, len),
                RNode::Dir { kids, .. } => rec(kids, path, f),
            }
            path.pop();
        }
    }
    rec(nodes, &mut vec![], f)
}

/// is every directory strictly increasing in case-insensitive ASCII order?
pub fn is_sorted(nodes: &[RNode]) -> bool {
    nodes
        .windows(2)
        .all(|w| lower(w[0].name()) < lower(w[1].name()))
        && nodes.iter().all(|n| match n {
            RNode::Dir { kids, .. } => is_sorted(kids),
            _ => true,
        })
}

/// Shift-JIS bytes of a name if it can be stored reversibly
pub fn sjis(name: &str) -> Option<Vec<u8>> {
    let (b, _, err) = encoding_rs::SHIFT_JIS.encode(name);
    if err || b.contains(&0) {
        return None;
    }
    let (back, err) = encoding_rs::SHIFT_JIS.decode_without_bom_handling(&b);
    if err || back != name {
        return None;
    }
    Some(b.into_owned())
}

/// How the reference encoder lays out the name table
#[derive(Clone, Copy, Debug)]
pub struct NameLayout {
    pub reversed: bool,
    pub share: bool,
    pub lead_gap: usize,
    pub root_name_off: u32,
    pub dir_flag: u8,
}

impl Default for NameLayout {
    fn default() -> Self {
        NameLayout {
            reversed: false,
            share: false,
            lead_gap: 0,
            root_name_off: 0,
            dir_flag: 1,
        }
    }
}

/// Serialises a tree as a Wii FST. Names must be representable.
pub fn fst_encode(tree: &[RNode], lay: NameLayout) -> Vec<u8> {
    // flatten
    struct Flat {
        dir: bool,
        name: Vec<u8>,
        a: u32,
        b: u32,
    }
    fn rec(nodes: &[RNode], parent: u32, flat: &mut Vec<Flat>) {
        for n in nodes {
            let me = flat.len();
            match n {
                RNode::File { name, off, len } => flat.push(Flat {
                    dir: false,
                    name: sjis(name).expect("representable"),
                    a: (*off / 4) as u32,
                    b: *len,
                }),
                RNode::Dir { name, kids } => {
                    flat.push(Flat {
                        dir: true,
                        name: sjis(name).expect("representable"),
                        a: parent,
                        b: 0,
                    });
                    rec(kids, me as u32, flat);
                    flat[me].b = flat.len() as u32;
                }
            }
        }
    }
    let mut flat = vec![Flat {
        dir: true,
        name: vec![],
        a: 0,
        b: 0,
    }];
    rec(tree, 0, &mut flat);
    flat[0].b = flat.len() as u32;
    let n = flat.len();
    let mut names: Vec<u8> = vec![0u8; lay.lead_gap];
    let mut offs = vec![0u32; n];
    let mut seen = std::collections::HashMap::new();
    let order: Vec<usize> = if lay.reversed {
        (1..n).rev().collect()
    } else {
        (1..n).collect()
    };
    for i in order {
        if lay.share {
            if let Some(o) = seen.get(&flat[i].name) {
                offs[i] = *o;
                continue;
            }
        }
        offs[i] = names.len() as u32;
        seen.insert(flat[i].name.clone(), names.len() as u32);
        names.extend_from_slice(&flat[i].name);
        names.push(0);
    }
    offs[0] = lay.root_name_off;
    let mut out = Vec::with_capacity(n * 12 + names.len());
    for (i, f) in flat.iter().enumerate() {
        let t = if f.dir { lay.dir_flag as u32 } else { 0 };
        out.extend_from_slice(&(t << 24 | offs[i]).to_be_bytes());
        out.extend_from_slice(&f.a.to_be_bytes());
        out.extend_from_slice(&f.b.to_be_bytes());
    }
    out.extend_from_slice(&names);
    out
}

/// Strict parser: checks every index. `b` may extend past the table.
/// Returns the tree and the number of bytes used by nodes and names.
pub fn fst_decode(b: &[u8]) -> Result<(Vec<RNode>, usize), String> {
    fst_decode_opt(b, true)
}

/// `strict` also checks what a reader can live without (parent indices)
pub fn fst_decode_opt(b: &[u8], strict: bool) -> Result<(Vec<RNode>, usize), String> {
    if b.len() < 12 {
        return Err("file table shorter than its root node".into());
    }
    if b[0] != 1 {
        return Err(format!("root node type is {} instead of 1", b[0]));
    }
    if be32(b, 4) != 0 {
        return Err("root node parent is not 0".into());
    }
    let n = be32(b, 8) as usize;
    if n == 0 || n * 12 > b.len() {
        return Err(format!("node count {n} does not fit in the table"));
    }
    let names = &b[n * 12..];
    let mut used = 0usize;
    // stack of (dir index, end, kids, name)
    let mut stack: Vec<(usize, usize, Vec<RNode>, String)> = vec![(0, n, vec![], String::new())];
    let mut i = 1;
    loop {
        while i == stack.last().unwrap().1 {
            let (_, _, kids, name) = stack.pop().unwrap();
            match stack.last_mut() {
                None => {
                    if i != n {
                        return Err("nodes left over".into());
                    }
                    return Ok((kids, n * 12 + used));
                }
                Some(p) => p.2.push(RNode::Dir { name, kids }),
            }
        }
        if i >= n {
            return Err("directory end past the table".into());
        }
        let t = b[i * 12];
        let no = (be32(b, i * 12) & 0xFF_FFFF) as usize;
        let a = be32(b, i * 12 + 4);
        let l = be32(b, i * 12 + 8);
        let raw = names
            .get(no..)
            .ok_or_else(|| format!("node {i}: name offset {no} outside the table"))?;
        let end = raw
            .iter()
            .position(|c| *c == 0)
            .ok_or_else(|| format!("node {i}: name not terminated"))?;
        used = used.max(no + end + 1);
        let (name, err) = encoding_rs::SHIFT_JIS.decode_without_bom_handling(&raw[..end]);
        if err {
            return Err(format!("node {i}: name is not Shift-JIS"));
        }
        let name = name.into_owned();
        match t {
            0 => stack.last_mut().unwrap().2.push(RNode::File {
                name,
                off: (a as u64) << 2,
                len: l,
            }),
            1 => {
                let (pidx, pend) = {
                    let p = stack.last().unwrap();
                    (p.0, p.1)
                };
                if strict && a as usize != pidx {
                    return Err(format!(
                        "node {i} ({name:?}): parent index {a}, should be {pidx}"
                    ));
                }
                if (l as usize) <= i || l as usize > pend {
                    return Err(format!(
                        "node {i} ({name:?}): end index {l} outside {}..={pend}",
                        i + 1
                    ));
                }
                stack.push((i, l as usize, vec![], name));
            }
            t => return Err(format!("node {i}: unknown type {t}")),
        }
        i += 1;
    }
}

// ---------------------------------------------------------------------------------------------
// rendering images

#[derive(Clone)]
pub struct RPart {
    pub kind: u32,
    /// absolute offset of the partition
    pub off: u64,
    pub ticket: Vec<u8>,
    pub tmd: Vec<u8>,
    pub tmd_off: u64,
    pub certs: Vec<u8>,
    pub cert_off: u64,
    pub h3_off: u64,
    pub data_off: u64,
    /// value of the data size field (bytes)
    pub data_size: u64,
    /// decrypted data, a whole number of groups
    pub plain: Vec<u8>,
}

impl RPart {
    pub fn key(&self) -> [u8; 16] {
        ticket_key(&self.ticket).unwrap()
    }
    pub fn end(&self) -> u64 {
        self.off + self.data_off + (self.plain.len() / GRPD * GRP) as u64
    }
    pub fn header(&self) -> Vec<u8> {
        let mut h = self.ticket.clone();
        assert_eq!(h.len(), TICKET_LEN);
        h.extend_from_slice(&(self.tmd.len() as u32).to_be_bytes());
        h.extend_from_slice(&((self.tmd_off >> 2) as u32).to_be_bytes());
        h.extend_from_slice(&(self.certs.len() as u32).to_be_bytes());
        h.extend_from_slice(&((self.cert_off >> 2) as u32).to_be_bytes());
        h.extend_from_slice(&((self.h3_off >> 2) as u32).to_be_bytes());
        h.extend_from_slice(&((self.data_off >> 2) as u32).to_be_bytes());
        h.extend_from_slice(&((self.data_size >> 2) as u32).to_be_bytes());
        h
    }
}

#[derive(Clone)]
pub struct RDisc {
    pub header: Vec<u8>,
    pub region: [u8; 32],
    /// for each of the four tables: where it is and which partitions it lists
    pub tables: Vec<(u64, Vec<usize>)>,
    pub parts: Vec<RPart>,
}

pub fn put(img: &mut Vec<u8>, off: usize, b: &[u8]) {
    if img.len() < off + b.len() {
        img.resize(off + b.len(), 0);
    }
    img[off..off + b.len()].copy_from_slice(b);
}

impl RDisc {
    /// entries in the order a reader must list them
    pub fn listing(&self) -> Vec<(u32, u64)> {
        self.tables
            .iter()
            .flat_map(|(_, t)| t.iter().map(|p| (self.parts[*p].kind, self.parts[*p].off)))
            .collect()
    }
    pub fn render(&self) -> Vec<u8> {
        let end = self
            .parts
            .iter()
            .map(|p| p.end())
            .max()
            .unwrap_or(0)
            .max(0x50000) as usize;
        let mut img = vec![0u8; end];
        put(&mut img, 0, &self.header);
        put(&mut img, 0x4E000, &self.region);
        for (i, (off, list)) in self.tables.iter().enumerate() {
            let mut e = Vec::new();
            e.extend_from_slice(&(list.len() as u32).to_be_bytes());
            e.extend_from_slice(&((*off >> 2) as u32).to_be_bytes());
            put(&mut img, 0x40000 + i * 8, &e);
            let mut t = Vec::new();
            for p in list {
                t.extend_from_slice(&((self.parts[*p].off >> 2) as u32).to_be_bytes());
                t.extend_from_slice(&self.parts[*p].kind.to_be_bytes());
            }
            if !t.is_empty() {
                put(&mut img, *off as usize, &t);
            }
        }
        for p in &self.parts {
            render_part(&mut img, p);
        }
        img
    }
}

pub fn render_part(img: &mut Vec<u8>, p: &RPart) {
    let o = p.off as usize;
    put(img, o, &p.header());
    put(img, o + p.tmd_off as usize, &p.tmd);
    put(img, o + p.cert_off as usize, &p.certs);
    let key = p.key();
    let mut h3 = vec![0u8; H3_LEN];
    for (g, plain) in p.plain.chunks(GRPD).enumerate() {
        let (enc, h) = encode_group(plain, &key);
        put(img, o + p.data_off as usize + g * GRP, &enc);
        h3[g * 20..g * 20 + 20].copy_from_slice(&h);
    }
    put(img, o + p.h3_off as usize, &h3);
}

// ---------------------------------------------------------------------------------------------
// taking images apart

pub struct PartView {
    pub kind: u32,
    pub off: u64,
    pub hdr: Vec<u8>,
    pub ticket: Vec<u8>,
    pub key: [u8; 16],
    pub tmd_off: u64,
    pub tmd: Vec<u8>,
    pub cert_off: u64,
    pub certs: Vec<u8>,
    pub h3_off: u64,
    pub h3: Vec<u8>,
    pub data_off: u64,
    pub data_size: u64,
    /// decrypted and verified data of all groups covered by `data_size`
    pub plain: Vec<u8>,
    pub boot: Vec<u8>,
    pub dol_off: u64,
    pub fst_off: u64,
    pub fst_size: u64,
    pub fst: Vec<RNode>,
    /// bytes really used by nodes and names
    pub fst_used: usize,
}

impl PartView {
    pub fn extent(&self) -> (u64, u64) {
        (
            self.off,
            self.off + self.data_off + (self.plain.len() / GRPD * GRP) as u64,
        )
    }
    pub fn file(&self, off: u64, len: u32) -> Result<&[u8], String> {
        self.plain
            .get(off as usize..off as usize + len as usize)
            .ok_or_else(|| format!("file extent {off:#x}+{len:#x} outside the partition data"))
    }
}

fn sl<'a>(img: &'a [u8], o: u64, n: usize, what: &str) -> Result<&'a [u8], String> {
    img.get(o as usize..(o as usize).saturating_add(n))
        .ok_or_else(|| {
            format!(
                "{what} at {o:#x}+{n:#x} lies outside the image ({:#x} bytes)",
                img.len()
            )
        })
}

pub fn list_parts(img: &[u8]) -> Result<Vec<(u32, u64)>, String> {
    let mut v = vec![];
    for i in 0..4 {
        let e = sl(img, 0x40000 + i * 8, 8, "partition table header")?;
        let (n, o) = (be32(e, 0), (be32(e, 4) as u64) << 2);
        if n > 1000 {
            return Err(format!("partition table {i} claims {n} entries"));
        }
        for k in 0..n as u64 {
            let e = sl(img, o + k * 8, 8, "partition table entry")?;
            v.push((be32(e, 4), (be32(e, 0) as u64) << 2));
        }
    }
    Ok(v)
}

/// Parses and verifies one partition written by the builder: everything the format requires.
pub fn open_part(img: &[u8], kind: u32, off: u64) -> Result<PartView, String> {
    open_part_opt(img, kind, off, true)
}

/// `strict = false` only needs what is necessary to find and decrypt the data:
/// no hash, size or parent-index checks, so that each property judges only its own subject.
pub fn open_part_opt(img: &[u8], kind: u32, off: u64, strict: bool) -> Result<PartView, String> {
    let hdr = sl(img, off, PHDR_LEN, "partition header")?.to_vec();
    let ticket = hdr[..TICKET_LEN].to_vec();
    let key = ticket_key(&ticket).ok_or("ticket names an unknown common key")?;
    let tmd_size = be32(&hdr, 0x2A4) as usize;
    let tmd_off = (be32(&hdr, 0x2A8) as u64) << 2;
    let cert_size = be32(&hdr, 0x2AC) as usize;
    let cert_off = (be32(&hdr, 0x2B0) as u64) << 2;
    let h3_off = (be32(&hdr, 0x2B4) as u64) << 2;
    let data_off = (be32(&hdr, 0x2B8) as u64) << 2;
    let data_size = (be32(&hdr, 0x2BC) as u64) << 2;
    let tmd = sl(img, off + tmd_off, tmd_size, "TMD")?.to_vec();
    let certs = sl(img, off + cert_off, cert_size, "certificate chain")?.to_vec();
    let h3 = sl(img, off + h3_off, H3_LEN, "H3 table")?.to_vec();
    if strict && (data_size == 0 || data_size as usize % GRPD != 0) {
        return Err(format!(
            "data size {data_size:#x} is not a whole number of groups"
        ));
    }
    let groups = (data_size as usize).div_ceil(GRPD);
    if groups > H3_LEN / 20 || groups * GRP > img.len() + GRP {
        return Err(format!("data size {data_size:#x} is larger than the image"));
    }
    let mut plain = Vec::with_capacity(groups * GRPD);
    for g in 0..groups {
        let enc = sl(img, off + data_off + (g * GRP) as u64, GRP, "group")?;
        let h = strict.then_some(&h3[g * 20..g * 20 + 20]);
        let p = group_decode(enc, &key, h).map_err(|e| format!("group {g} of {groups}: {e}"))?;
        plain.extend_from_slice(&p);
    }
    let boot = plain.get(..HDR_LEN).ok_or("no data in the partition")?.to_vec();
    let dol_off = (be32(&boot, 0x420) as u64) << 2;
    let fst_off = (be32(&boot, 0x424) as u64) << 2;
    let fst_size = (be32(&boot, 0x428) as u64) << 2;
    let raw = plain
        .get(fst_off as usize..(fst_off + fst_size) as usize)
        .ok_or_else(|| format!("file table {fst_off:#x}+{fst_size:#x} outside the data"))?;
    let (fst, fst_used) = fst_decode_opt(raw, strict).map_err(|e| format!("file table: {e}"))?;
    Ok(PartView {
        kind,
        off,
        hdr,
        ticket,
        key,
        tmd_off,
        tmd,
        cert_off,
        certs,
        h3_off,
        h3,
        data_off,
        data_size,
        plain,
        boot,
        dol_off,
        fst_off,
        fst_size,
        fst,
        fst_used,
    })
}

/// Header-derived size of an apploader
pub fn apploader_len(a: &[u8]) -> u64 {
    32 + be32(a, 0x14) as u64 + be32(a, 0x18) as u64
}

/// Header-derived size of a DOL: end of the last section present in the file
pub fn dol_len(d: &[u8]) -> u64 {
    let mut end = 0x100u64;
    for i in 0..18 {
        let off = be32(d, i * 4) as u64;
        let size = be32(d, 0x90 + i * 4) as u64;
        if size > 0 {
            end = end.max(off + size);
        }
    }
    end
}
