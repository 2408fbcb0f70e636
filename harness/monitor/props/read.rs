//! C07, C08, C09, C22: reading images.

use crate::faultio::*;
use crate::gen::{self, GenDisc, PartParams};
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use disc_riider::{IOWindow, WiiIsoReader, WiiPartitionReadInfo};
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

fn params(rng: &mut Rng, big: bool) -> PartParams {
    PartParams {
        groups: if big { rng.range(1, 4) as usize } else { rng.range(1, 2) as usize },
        max_nodes: 25,
        sorted: rng.chance(1, 2),
        fancy: rng.chance(1, 2),
        empty_dirs: true,
    }
}

// ---------------------------------------------------------------------------------------------

pub const C07: Prop = Prop {
    id: "C07",
    run: c07,
    quick: 1200,
    thorough: 30000,
    rule: "a case is one history of some hundred reader operations, interleaved over the partitions of one image (rendered by the reference with foreign layouts, or built by the library), each result compared with the plaintext model; distinct by image and history",
    need: &[("reads", 5000), ("positioned reads", 3000), ("file windows", 3000), ("partition switches", 2000), ("group switches", 3000), ("reads at the end", 100), ("missing paths", 200), ("far reads", 500)],
};

/// interesting position within `len` bytes of partition data
fn position(rng: &mut Rng, len: u64) -> u64 {
    match rng.below(8) {
        0 => {
            let unit = *rng.pick(&[BLKD as u64, GRPD as u64, 0x400, 64]);
            let k = rng.below(len / unit + 1) * unit;
            (k + 4).saturating_sub(rng.below(9))
        }
        1 => len.saturating_sub(rng.below(20)),
        2 => rng.below(64),
        3 => len + rng.below(3),
        _ => rng.below(len),
    }
}

fn amount(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 0,
        1 => 1,
        2 | 3 => rng.below(64),
        4 => *rng.pick(&[0x7bffu64, 0x7c00, 0x7c01, 0xf800]),
        5 => rng.below(0x20000),
        6 if rng.chance(1, 6) => rng.below(0x3f0000),
        _ => rng.below(3000),
    }
}

pub struct Model {
    pub plain: Vec<u8>,
    /// where the library must stop reading
    pub end: u64,
    pub pos: Option<u64>,
    pub tree: Vec<RNode>,
}

fn built_disc(rng: &mut Rng) -> Result<(Vec<u8>, Vec<Model>), String> {
    use crate::scen::*;
    use disc_riider::builder::WiiDiscBuilder;
    let mut out = Cursor::new(vec![]);
    let sys = gen::sys(rng, None);
    let mut b = WiiDiscBuilder::create(&mut out, parse_header(&sys.header).map_err(|e| e.to_string())?, sys.region);
    let n = rng.range(1, 2);
    for i in 0..n {
        let k = *rng.pick(&[2u64, 3, 4, 5, 10, 11, 12, 12]);
        let s = scenario(
            rng,
            k,
            ScenOpts {
                dir: false,
                big: false,
                max_nodes: 20,
                budget: 3_000_000,
            },
        );
        let mut def = Def::new(&s.sys, &s.tree, &s.files);
        add_def(&mut b, i as u32, &mut def, &mut |_| ())?;
    }
    b.finish().map_err(|e| e.to_string())?;
    drop(b);
    let img = out.into_inner();
    let mut models = vec![];
    for (k, o) in list_parts(&img)? {
        let v = open_part_opt(&img, k, o, false)?;
        models.push(Model {
            end: v.data_size,
            plain: v.plain,
            pos: Some(0),
            tree: v.fst,
        });
    }
    Ok((img, models))
}

fn ref_image(rng: &mut Rng, n: usize, big: bool) -> (Vec<u8>, Vec<Model>, GenDisc) {
    let mut d = gen::ref_disc(rng, n, &mut |r, _| params(r, big));
    // discs mastered elsewhere give the size of the encrypted data instead
    for i in 0..n {
        if rng.chance(1, 4) {
            let enc = (d.disc.parts[i].plain.len() / GRPD * GRP) as u64;
            d.disc.parts[i].data_size = enc;
            d.parts[i].part.data_size = enc;
        }
    }
    let img = d.disc.render();
    let order: Vec<usize> = d.disc.tables.iter().flat_map(|t| t.1.clone()).collect();
    let models = order
        .iter()
        .map(|i| Model {
            plain: d.parts[*i].part.plain.clone(),
            end: d.parts[*i].part.data_size,
            pos: Some(0),
            tree: d.parts[*i].tree.clone(),
        })
        .collect();
    (img, models, d)
}

/// moves the groups from `k` on of a partition `by` groups further; None if something spans that point
fn spread(g: &mut gen::GenPart, part: &mut RPart, k: usize, by: usize) -> bool {
    let edge = (k * GRPD) as u64;
    let shift = (by * GRPD) as u64;
    let spans = |o: u64, l: u64| o < edge && o + l > edge;
    if tree_files(&g.tree).iter().any(|f| spans(f.1, f.2 as u64))
        || spans(g.dol_off, g.sys.dol.len() as u64)
        || spans(g.fst_off, g.fst_bytes.len() as u64 + 3)
        || spans(0, 0x2440 + g.sys.apploader.len() as u64)
    {
        return false;
    }
    // nodes are stored in preorder, the root first
    let mut idx = 0usize;
    fn walk(t: &mut [RNode], idx: &mut usize, edge: u64, shift: u64, fst: &mut [u8]) {
        for n in t {
            *idx += 1;
            match n {
                RNode::File { off, .. } => {
                    if *off >= edge {
                        *off += shift;
                        put32(fst, *idx * 12 + 4, (*off >> 2) as u32);
                    }
                }
                RNode::Dir { kids, .. } => walk(kids, idx, edge, shift, fst),
            }
        }
    }
    walk(&mut g.tree, &mut idx, edge, shift, &mut g.fst_bytes);
    part.plain[g.fst_off as usize..][..g.fst_bytes.len()].copy_from_slice(&g.fst_bytes);
    if g.fst_off >= edge {
        g.fst_off += shift;
        put32(&mut g.sys.header, 0x424, (g.fst_off >> 2) as u32);
    }
    if g.dol_off >= edge {
        g.dol_off += shift;
        put32(&mut g.sys.header, 0x420, (g.dol_off >> 2) as u32);
    }
    part.plain[..HDR_LEN].copy_from_slice(&g.sys.header);
    part.data_size = (part.plain.len() + by * GRPD) as u64;
    g.part = part.clone();
    true
}

/// the disc as a sparse stream; partition i's groups from .0 on lie .1 groups further
fn render_sparse(d: &RDisc, shifts: &[(usize, usize)]) -> Sparse {
    let mut out = Sparse::default();
    let mut head = RDisc { parts: vec![], tables: vec![], ..d.clone() }.render();
    for (i, (off, list)) in d.tables.iter().enumerate() {
        put32(&mut head, 0x40000 + i * 8, list.len() as u32);
        put32(&mut head, 0x40004 + i * 8, (*off >> 2) as u32);
        let mut t = vec![];
        for p in list {
            t.extend_from_slice(&((d.parts[*p].off >> 2) as u32).to_be_bytes());
            t.extend_from_slice(&d.parts[*p].kind.to_be_bytes());
        }
        if *off + t.len() as u64 <= 0x4E000 {
            put(&mut head, *off as usize, &t);
        } else {
            out.put(*off, t);
        }
    }
    out.put(0, head);
    for (p, (k, by)) in d.parts.iter().zip(shifts) {
        let mut b = vec![];
        render_part(&mut b, &RPart { off: 0, ..p.clone() });
        let at = p.data_off as usize + k * GRP;
        let rest = b.split_off(at.min(b.len()));
        out.put(p.off, b);
        if !rest.is_empty() {
            out.put(p.off + at as u64 + (by * GRP) as u64, rest);
        }
    }
    out
}

/// partitions and files at offsets that do not fit 32 bits
pub fn far_disc(rng: &mut Rng, n: usize) -> (GenDisc, Sparse, Vec<(usize, usize)>) {
    let mut d = gen::ref_disc(rng, n, &mut |r, _| params(r, true));
    let mut shifts = vec![];
    let mut off = 0x50000u64 + 4 * rng.below(1000);
    for i in 0..n {
        let groups = d.parts[i].part.plain.len() / GRPD;
        let (mut k, mut by) = (groups, 0);
        for _ in 0..4 {
            if groups < 2 || off > 0x2_E000_0000 || rng.chance(1, 4) {
                continue;
            }
            let (k2, mut by2) = (rng.range(1, groups as u64 - 1) as usize, *rng.pick(&[1usize, 1000, 2047, 2048, 2112, 2113, 2200]));
            if i == n - 1 && rng.chance(1, 3) {
                // nothing has to fit behind it
                by2 = *rng.pick(&[4228usize, 4229, 4500, 4900]);
            }
            let GenDisc { disc, parts } = &mut d;
            if spread(&mut parts[i], &mut disc.parts[i], k2, by2) {
                (k, by) = (k2, by2);
                break;
            }
        }
        shifts.push((k, by));
        if rng.chance(2, 3) {
            let v = *rng.pick(&[0u64, 0xF000_0000, 0xFFFF_FFFC, 0x1_0000_0000, 0x1_0000_0000]);
            off = off.max(v + 4 * rng.below(100));
        }
        d.disc.parts[i].off = off;
        d.parts[i].part.off = off;
        assert!(off < 1 << 34);
        off = d.parts[i].part.end() + (by * GRP) as u64;
        off = (off + 3) & !3;
    }
    // a table may lie there as well
    if off < 0x3_F000_0000 && rng.chance(1, 3) {
        let t = rng.below(4) as usize;
        d.disc.tables[t].0 = ((off + 3) & !3).max(0x1_0000_0000);
    }
    let s = render_sparse(&d.disc, &shifts);
    (d, s, shifts)
}

/// one DATA partition with the given tree, somewhere beyond 4 GiB
pub fn far_with(rng: &mut Rng, tree: &[RNode]) -> (GenDisc, Sparse, (usize, usize)) {
    let groups = rng.range(2, 5) as usize;
    let off = *rng.pick(&[0x50000u64, 0xFFFF_0000, 0x1_0000_0000, 0x1_2345_6780]);
    let mut g = gen::ref_part_with(rng, off, 0, groups, tree.to_vec());
    let mut part = g.part.clone();
    let mut shift = (groups, 0);
    for k in 1..groups {
        let by = *rng.pick(&[1usize, 2113, 2200, 4229, 4900]);
        if spread(&mut g, &mut part, k, by) {
            shift = (k, by);
            break;
        }
    }
    let disc = RDisc {
        header: gen::disc_header(rng),
        region: rng.arr(),
        tables: vec![(0x40020, vec![0]), (0x41000, vec![]), (0x41000, vec![]), (0x41000, vec![])],
        parts: vec![part],
    };
    let s = render_sparse(&disc, &[shift]);
    (GenDisc { disc, parts: vec![g] }, s, shift)
}

/// where a piece of a far partition's data is in its stored groups
pub fn stored_at(off: u64, (k, by): (usize, usize)) -> usize {
    (if off >= (k * GRPD) as u64 { off - (by * GRPD) as u64 } else { off }) as usize
}

/// the sparse stream as a file with holes
pub fn write_sparse(path: &std::path::Path, s: &Sparse) -> std::io::Result<()> {
    use std::io::Write;
    let mut f = std::fs::File::create(path)?;
    for (off, b) in &s.segs {
        f.seek(SeekFrom::Start(*off))?;
        f.write_all(b)?;
    }
    Ok(())
}

fn c07_far(c: &mut Case) -> Res {
    let n = c.rng.range(1, 3) as usize;
    let (d, src, shifts) = far_disc(&mut c.rng, n);
    let order: Vec<usize> = d.disc.tables.iter().flat_map(|t| t.1.clone()).collect();
    let mut r = WiiIsoReader::open(src).map_err(|e| format!("open: {e}"))?;
    let entries = r.partitions().to_vec();
    if entries.len() != order.len() {
        return Err(format!("{} partitions listed, {} exist", entries.len(), order.len()));
    }
    let mut infos = vec![];
    for (e, k) in entries.iter().zip(&order) {
        let i = r
            .open_partition(e.clone())
            .map_err(|e| format!("partition at {:#x}: {e}", d.disc.parts[*k].off))?;
        if from_fst(i.get_fst()) != d.parts[*k].tree {
            return Err(format!("partition at {:#x}: file tree differs from the one stored", d.disc.parts[*k].off));
        }
        infos.push(i);
    }
    let mut h = 0;
    for _ in 0..60 {
        let j = c.rng.below(n as u64) as usize;
        let (g, (k, by), i) = (&d.parts[order[j]], shifts[order[j]], &mut infos[j]);
        let plain = &g.part.plain;
        // a piece of data that exists: (position in the stored groups, position in the partition)
        let second = by > 0 && c.rng.chance(2, 3);
        let (lo, hi) = if second { (k * GRPD, plain.len()) } else { (0, k.min(plain.len() / GRPD) * GRPD) };
        let a = lo as u64 + position(&mut c.rng, (hi - lo) as u64).min((hi - lo) as u64 - 1);
        let l = amount(&mut c.rng).min(hi as u64 - a);
        let at = a + if second { (by * GRPD) as u64 } else { 0 };
        let want = &plain[a as usize..(a + l) as usize];
        let what = format!("{l:#x} bytes at {at:#x} of the partition at {:#x}", g.part.off);
        if at >= 1 << 32 || g.part.off >= 1 << 32 {
            c.st.add("far reads", 1);
        }
        let op = c.rng.below(4);
        h = mix(h ^ at ^ op);
        let mut b = vec![];
        match op {
            0 => i.get_crypto_reader(&mut r).read_into_vec(at, l, &mut b).map_err(|e| format!("{what}: {e}"))?,
            1 => {
                let mut w = i.get_crypto_reader(&mut r);
                let from = w.stream_position().map_err(|e| e.to_string())?;
                let to = if c.rng.chance(1, 2) { SeekFrom::Start(at) } else { SeekFrom::Current(at as i64 - from as i64) };
                let p = w.seek(to).map_err(|e| format!("{what}: {e}"))?;
                b.resize(l as usize, 0);
                w.read_exact(&mut b).map_err(|e| format!("{what}: {e}"))?;
                let q = w.stream_position().map_err(|e| e.to_string())?;
                if p != at || q != at + l {
                    return Err(format!("{what}: position {p:#x} before and {q:#x} after"));
                }
            }
            2 => {
                let back = c.rng.below(at + 1);
                let mut w = i.open_window(&mut r, at - back, Some(back + l));
                let p = w.seek(SeekFrom::Start(back)).map_err(|e| format!("{what}: {e}"))?;
                w.read_to_end(&mut b).map_err(|e| format!("{what}: {e}"))?;
                if p != back {
                    return Err(format!("{what}: window seek to {back:#x} gives {p:#x}"));
                }
            }
            _ => {
                let files = tree_files(&g.tree);
                if files.is_empty() {
                    continue;
                }
                let (path, off, len) = c.rng.pick(&files).clone();
                let real = if off >= (k * GRPD) as u64 { off - (by * GRPD) as u64 } else { off };
                i.open_file(&mut r, &pathstr(&path))
                    .ok_or_else(|| format!("{} cannot be opened", pathstr(&path)))?
                    .read_to_end(&mut b)
                    .map_err(|e| format!("{} at {off:#x}: {e}", pathstr(&path)))?;
                expect_eq(&format!("{} at {off:#x}", pathstr(&path)), &b, &plain[real as usize..][..len as usize])?;
                continue;
            }
        }
        expect_eq(&what, &b, want)?;
    }
    c.st.distinct(h);
    c.st.sample(|| format!("partitions at {:x?}, later groups moved by {shifts:?}", d.disc.parts.iter().map(|p| p.off).collect::<Vec<_>>()));
    Ok(())
}

fn c07(c: &mut Case) -> Res {
    if c.idx % 8 == 3 {
        return c07_far(c);
    }
    let (img, mut models) = if c.rng.chance(1, 4) {
        built_disc(&mut c.rng)?
    } else {
        let n = c.rng.range(1, 3) as usize;
        let (i, m, _) = ref_image(&mut c.rng, n, true);
        (i, m)
    };
    let sig = hash_bytes(&img[0x50000..0x50400]);
    let mut r = WiiIsoReader::open(Cursor::new(&img[..])).map_err(|e| format!("open: {e}"))?;
    let entries = r.partitions().to_vec();
    if entries.len() != models.len() {
        return Err(format!("{} partitions listed, {} exist", entries.len(), models.len()));
    }
    let mut infos: Vec<WiiPartitionReadInfo> = vec![];
    for e in &entries {
        infos.push(r.open_partition(e.clone()).map_err(|e| format!("open_partition: {e}"))?);
    }
    for (i, m) in infos.iter().zip(models.iter_mut()) {
        if from_fst(i.get_fst()) != m.tree {
            return Err("file tree differs from the one stored".into());
        }
        m.pos = None;
    }
    let mut h = sig;
    let mut last = 0usize;
    let n_ops = if c.thorough { 400 } else { 220 };
    for step in 0..n_ops {
        let k = c.rng.below(infos.len() as u64) as usize;
        if k != last {
            c.st.add("partition switches", 1);
            last = k;
        }
        let op = reader_op(&mut c.rng, &mut infos[k], &mut r, &mut models[k], c.st).map_err(|e| format!("step {step}, partition {k}: {e}"))?;
        h = mix(h ^ op);
    }
    // a fresh sweep over every file
    for (i, m) in infos.iter_mut().zip(models.iter()) {
        for (p, off, len) in tree_files(&m.tree) {
            let mut b = vec![];
            i.open_file(&mut r, &pathstr(&p))
                .ok_or_else(|| format!("{} cannot be opened", pathstr(&p)))?
                .read_to_end(&mut b)
                .map_err(|e| e.to_string())?;
            expect_eq(&pathstr(&p), &b, &m.plain[off as usize..(off + len as u64) as usize])?;
        }
    }
    c.st.distinct(h);
    c.st.sample(|| {
        format!(
            "{} partitions of {:?} groups, {} files, {n_ops} operations",
            models.len(),
            models.iter().map(|m| m.plain.len() / GRPD).collect::<Vec<_>>(),
            models.iter().map(|m| tree_files(&m.tree).len()).sum::<usize>()
        )
    });
    Ok(())
}

fn slice(m: &Model, pos: u64, n: u64) -> &[u8] {
    let e = m.end.min(m.plain.len() as u64);
    let a = pos.min(e);
    let z = pos.saturating_add(n).min(e);
    &m.plain[a as usize..z as usize]
}

fn reader_op<RS: Read + Seek>(
    rng: &mut Rng,
    i: &mut WiiPartitionReadInfo,
    r: &mut WiiIsoReader<RS>,
    m: &mut Model,
    st: &mut Stats,
) -> Result<u64, String> {
    // reading behind the plaintext of an image that overstates its size is not defined
    let len = m.plain.len() as u64;
    let known_end = m.end == len;
    let clip = |p: u64, n: u64| if known_end { n } else { n.min(len.saturating_sub(p)) };
    let op = rng.below(12);
    match op {
        0 | 1 => {
            let p = position(rng, len);
            let got = i.get_crypto_reader(r).seek(SeekFrom::Start(p)).map_err(|e| format!("seek: {e}"))?;
            if got != p {
                return Err(format!("seek to {p:#x} reports {got:#x}"));
            }
            if let Some(o) = m.pos {
                if o / GRPD as u64 != p / GRPD as u64 {
                    st.add("group switches", 1);
                }
            }
            m.pos = Some(p);
        }
        2 => {
            if let Some(o) = m.pos {
                let d = rng.below(0x40000) as i64 - 0x20000;
                let d = match rng.below(20) {
                    0 | 1 => -(o as i64) - rng.below(10) as i64,
                    // far away, and back
                    2 => *rng.pick(&[1i64 << 31, 1 << 32, 3 << 32, 1 << 40]) + d,
                    3..=5 if o > len => position(rng, len) as i64 - o as i64,
                    _ => d,
                };
                let t = o as i64 + d;
                match i.get_crypto_reader(r).seek(SeekFrom::Current(d)) {
                    Ok(g) if t >= 0 && g == t as u64 => m.pos = Some(g),
                    Ok(0) if t < 0 => m.pos = Some(0),
                    Err(_) if t < 0 => {}
                    x => return Err(format!("relative seek from {o:#x} by {d} gives {x:?}")),
                }
            }
        }
        3..=5 => {
            let p = match m.pos {
                Some(p) => p,
                None => {
                    let p = position(rng, len);
                    i.get_crypto_reader(r).seek(SeekFrom::Start(p)).map_err(|e| format!("seek: {e}"))?;
                    p
                }
            };
            let n = clip(p, amount(rng));
            let mut buf = vec![0xA5u8; n as usize];
            let got = i.get_crypto_reader(r).read(&mut buf).map_err(|e| format!("read at {p:#x}+{n:#x}: {e}"))?;
            let want = slice(m, p, n);
            if got > want.len() || (got == 0 && !want.is_empty()) {
                return Err(format!("read at {p:#x}+{n:#x} returned {got} bytes, {} available", want.len()));
            }
            expect_eq(&format!("read at {p:#x}"), &buf[..got], &want[..got])?;
            if buf[got..].iter().any(|b| *b != 0xA5) {
                return Err(format!("read at {p:#x} returned {got} bytes but changed the buffer behind them"));
            }
            let np = i.get_crypto_reader(r).stream_position().map_err(|e| e.to_string())?;
            if np != p + got as u64 {
                return Err(format!("read of {got} bytes at {p:#x} moved the position to {np:#x}"));
            }
            m.pos = Some(np);
            st.add("reads", 1);
            st.add("bytes compared", got as u64);
            if known_end && p + n >= len {
                st.add("reads at the end", 1);
            }
        }
        6..=8 => {
            let p = position(rng, len);
            let n = clip(p, amount(rng));
            if known_end && rng.chance(1, 6) {
                // one that asks for more than there is gets what there is, or nothing at all
                let n = n.max(len.saturating_sub(p)) + rng.range(1, 0x300000);
                let mut buf = rng.bytes(5);
                if i.get_crypto_reader(r).read_into_vec(p, n, &mut buf).is_ok() {
                    expect_eq(&format!("positioned read at {p:#x}, past the end"), &buf, slice(m, p, n))?;
                    st.add("positioned reads past the end", 1);
                }
                return Ok(op);
            }
            // the positioned read returns exactly what was asked for, so stay inside the data
            let n = n.min(len.saturating_sub(p));
            let mut buf = rng.bytes(5);
            i.get_crypto_reader(r)
                .read_into_vec(p, n, &mut buf)
                .map_err(|e| format!("positioned read at {p:#x}+{n:#x}: {e}"))?;
            expect_eq(&format!("positioned read at {p:#x}"), &buf, slice(m, p, n))?;
            if let Some(o) = m.pos {
                let np = i.get_crypto_reader(r).stream_position().map_err(|e| e.to_string())?;
                if np != o {
                    return Err(format!("positioned read moved the position from {o:#x} to {np:#x}"));
                }
                if o / GRPD as u64 != p / GRPD as u64 {
                    st.add("group switches", 1);
                }
            }
            st.add("positioned reads", 1);
            st.add("bytes compared", n);
        }
        9 | 10 => {
            let files = tree_files(&m.tree);
            if files.is_empty() {
                return Ok(op);
            }
            let (path, off, flen) = rng.pick(&files).clone();
            let mut ps = pathstr(&path);
            if rng.chance(1, 6) {
                ps = format!("/{ps}");
            }
            if rng.chance(1, 8) {
                // a directory, or something that does not exist
                let bad = match rng.below(4) {
                    0 => {
                        let mut d = path.clone();
                        d.pop();
                        if d.is_empty() {
                            "".into()
                        } else {
                            pathstr(&d)
                        }
                    }
                    1 => format!("{ps}/x"),
                    2 => format!("{ps}?"),
                    _ => format!("no such dir/{ps}"),
                };
                if i.open_file(r, &bad).is_some() {
                    return Err(format!("opening {bad:?} succeeds"));
                }
                st.add("missing paths", 1);
                return Ok(op);
            }
            m.pos = None;
            let want = m.plain[off as usize..off as usize + flen as usize].to_vec();
            let mut w = i.open_file(r, &ps).ok_or_else(|| format!("{ps} cannot be opened"))?;
            window_ops(rng, &mut w, &want, &ps)?;
            st.add("file windows", 1);
        }
        _ => {
            let p = position(rng, len).min(len - 1);
            let n = rng.below(0x9000).min(len - p);
            if known_end && rng.chance(1, 6) {
                // a window reaching past the data ends with it
                let l = (len - p) + *rng.pick(&[0u64, 1, 0x8000, (1 << 32) - (len - p), 1 << 32, 1 << 40]);
                m.pos = None;
                let mut w = i.open_window(r, p, Some(l));
                let q = if rng.chance(1, 2) { rng.below(len - p) } else { (len - p).saturating_sub(rng.below(3000)) };
                let g = w.seek(SeekFrom::Start(q)).map_err(|e| e.to_string())?;
                if g != q {
                    return Err(format!("window of {l:#x} at {p:#x}: seek to {q:#x} reports {g:#x}"));
                }
                let mut b = vec![];
                (&mut w).take(0x9000).read_to_end(&mut b).map_err(|e| format!("window of {l:#x} at {p:#x}: {e}"))?;
                let want = slice(m, p + q, 0x9000);
                expect_eq(&format!("window of {l:#x} at {p:#x} read at {q:#x}"), &b, want)?;
                st.add("overlong windows", 1);
                return Ok(op);
            }
            let bounded = rng.chance(2, 3);
            m.pos = None;
            let want = m.plain[p as usize..].to_vec();
            let mut w = i.open_window(r, p, if bounded { Some(n) } else { None });
            let want = if bounded { &want[..n as usize] } else { &want[..] };
            if bounded {
                window_ops(rng, &mut w, want, "region window")?;
            } else {
                let q = rng.below(want.len() as u64);
                let q = w.seek(SeekFrom::Start(q)).map_err(|e| e.to_string())?;
                let mut b = vec![0; (want.len() as u64 - q).min(5000) as usize];
                w.read_exact(&mut b).map_err(|e| format!("window read_exact: {e}"))?;
                expect_eq("region window", &b, &want[q as usize..][..b.len()])?;
            }
            st.add("region windows", 1);
        }
    }
    Ok(op)
}

/// a bounded read-only window must behave like a cursor over `want`
fn window_ops<W: Read + Seek>(rng: &mut Rng, w: &mut W, want: &[u8], name: &str) -> Result<(), String> {
    let len = want.len() as u64;
    let mut pos = 0u64;
    for k in 0..rng.range(1, 6) {
        match rng.below(7) {
            0 => {
                let d = rng.below(len + 3) as i64 - pos as i64;
                let g = w.seek(SeekFrom::Current(d)).map_err(|e| format!("{name}: relative seek: {e}"))?;
                if g != (pos as i64 + d) as u64 {
                    return Err(format!("{name}: op {k}: relative seek by {d} from {pos} gives {g}"));
                }
                pos = g;
            }
            1 => {
                let d = rng.below(len + 1);
                let g = w.seek(SeekFrom::End(-(d as i64))).map_err(|e| format!("{name}: seek from end: {e}"))?;
                if g != len - d {
                    return Err(format!("{name}: op {k}: seek to end-{d} gives {g}, length {len}"));
                }
                pos = g;
            }
            2 => {
                let d = rng.below(len + 5);
                let g = w.seek(SeekFrom::Start(d)).map_err(|e| format!("{name}: seek: {e}"))?;
                if g != d {
                    return Err(format!("{name}: op {k}: seek to {d} gives {g}"));
                }
                pos = g;
            }
            3 => {
                let n = rng.below(1 + len.min(9000)) as usize;
                let mut b = vec![0; n];
                let ok = pos + n as u64 <= len;
                match w.read_exact(&mut b) {
                    Ok(()) if ok => {
                        if n > 0 {
                            expect_eq(&format!("{name}: read_exact at {pos}"), &b, &want[pos as usize..][..n])?;
                        }
                        pos += n as u64;
                    }
                    Ok(()) if n == 0 => {}
                    Err(_) if !ok => {
                        pos = w.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
                    }
                    x => return Err(format!("{name}: read_exact of {n} at {pos} of {len} gives {x:?}")),
                }
            }
            4 => {
                let mut b = vec![];
                w.read_to_end(&mut b).map_err(|e| format!("{name}: read_to_end: {e}"))?;
                let a = pos.min(len) as usize;
                expect_eq(&format!("{name}: read_to_end at {pos}"), &b, &want[a..])?;
                pos += b.len() as u64;
            }
            _ => {
                let n = amount(rng) as usize;
                let mut b = vec![0; n];
                let g = w.read(&mut b).map_err(|e| format!("{name}: read: {e}"))?;
                let left = &want[pos.min(len) as usize..];
                if g > left.len() || (g == 0 && n > 0 && !left.is_empty()) {
                    return Err(format!("{name}: read of {n} at {pos} of {len} returned {g}"));
                }
                expect_eq(&format!("{name}: read at {pos}"), &b[..g], &left[..g])?;
                pos += g as u64;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C08: Prop = Prop {
    id: "C08",
    run: c08,
    quick: 2000,
    thorough: 50000,
    rule: "a case is one reader history over a source that injects short reads, Interrupted, I/O errors and failing seeks (also while opening), compared with the plaintext model; afterwards the faults stop and everything is read again on the same reader; distinct by image and fault schedule",
    need: &[("errors injected", 500), ("short reads injected", 2000), ("interrupts injected", 1000), ("operations failed", 100), ("operations ok", 3000), ("opens failed", 20)],
};

fn c08(c: &mut Case) -> Res {
    let n = c.rng.range(1, 2) as usize;
    let (img, models, d) = ref_image(&mut c.rng, n, false);
    let benign = c.idx % 3 == 0;
    let mut store = Store::new(img.clone());
    let seed = c.rng.next();
    let mk = |k: u64, err: u64| Noise {
        rng: Some(Rng::new(seed ^ k)),
        short: 100,
        intr: 40,
        err,
        zero: true,
    };
    let errs = if benign { 0 } else { *c.rng.pick(&[1u64, 4, 10, 30, 90]) };
    // opening may fail, never lie
    let mut tries = 0;
    let mut r = loop {
        tries += 1;
        store.pos = 0;
        store.noise = if tries > 12 { Noise::default() } else { mk(tries, errs) };
        let s = std::mem::replace(&mut store, Store::new(vec![]));
        let mut keep = s;
        let res = WiiIsoReader::open(&mut keep).map(|r| {
            (
                r.partitions()
                    .iter()
                    .map(|p| (kind_no(p.get_type()), p.get_offset()))
                    .collect::<Vec<_>>(),
                header_bytes(r.get_header()),
                *r.get_region(),
            )
        });
        match res {
            Ok((l, h, g)) => {
                if l != d.disc.listing() {
                    return Err(format!("open under faults lists {l:x?}"));
                }
                expect_eq("header under faults", &h, &d.disc.header)?;
                expect_eq("region under faults", &g, &d.disc.region)?;
                // open once more without faults so that the reader owns the store
                keep.noise = Noise::default();
                keep.pos = 0;
                break WiiIsoReader::open(keep).map_err(|e| format!("open after faults: {e}"))?;
            }
            Err(e) => {
                c.st.add("opens failed", 1);
                if keep.n_err == 0 {
                    return Err(format!("open failed with short and interrupted reads only: {e}"));
                }
                store = keep;
                store.n_err = 0;
            }
        }
    };
    let entries = r.partitions().to_vec();
    let mut infos = vec![];
    for (e, m) in entries.iter().zip(&models) {
        let mut k = 0;
        loop {
            k += 1;
            r.file.noise = if k > 12 { Noise::default() } else { mk(1000 + k, errs) };
            let before = r.file.n_err;
            match r.open_partition(e.clone()) {
                Ok(i) => {
                    if from_fst(i.get_fst()) != m.tree {
                        return Err("open_partition under faults returned a different tree".into());
                    }
                    infos.push(i);
                    break;
                }
                Err(e) => {
                    c.st.add("opens failed", 1);
                    if r.file.n_err == before {
                        return Err(format!("open_partition failed without an injected error: {e}"));
                    }
                }
            }
        }
    }
    let mut hsh = seed;
    for step in 0..if c.thorough { 200 } else { 120 } {
        r.file.noise = if c.rng.chance(1, 6) { Noise::default() } else { mk(2000 + step, errs) };
        let k = c.rng.below(infos.len() as u64) as usize;
        let m = &models[k];
        let i = &mut infos[k];
        let before = r.file.n_err;
        let len = m.plain.len() as u64;
        let op = c.rng.below(8);
        hsh = mix(hsh ^ op);
        let res: Result<(), String> = match op {
            0..=2 => {
                let p = position(&mut c.rng, len).min(len);
                let n = amount(&mut c.rng).min(len - p);
                let mut b = vec![];
                match i.get_crypto_reader(&mut r).read_into_vec(p, n, &mut b) {
                    Ok(()) => {
                        expect_eq("positioned read under faults", &b, slice(m, p, n))?;
                        Ok(())
                    }
                    Err(e) => Err(e.to_string()),
                }
            }
            3 | 4 => {
                let p = position(&mut c.rng, len).min(len);
                let n = if c.rng.chance(1, 3) { c.rng.below(0x400000) } else { amount(&mut c.rng) }.min(len - p);
                let mut rd = i.get_crypto_reader(&mut r);
                match rd.seek(SeekFrom::Start(p)) {
                    Err(e) => Err(e.to_string()),
                    Ok(_) => {
                        // a run of sequential reads; a failed one does not move the position
                        let chunk = *c.rng.pick(&[0x9000u64, 0x9000, 0x1F8000, 0x400000]);
                        let mut failures = 0;
                        let mut out = Ok(());
                        let mut pos = p;
                        let mut left = n;
                        while left > 0 {
                            let mut b = vec![0; left.min(chunk) as usize];
                            match rd.read(&mut b) {
                                Ok(0) => return Err(format!("read at {pos:#x} under faults returned 0 bytes")),
                                Ok(g) => {
                                    expect_eq("read under faults", &b[..g], slice(m, pos, g as u64))?;
                                    pos += g as u64;
                                    left -= g as u64;
                                    let q = rd.stream_position().map_err(|e| e.to_string())?;
                                    if q != pos {
                                        return Err(format!("position {q:#x} after a read under faults, expected {pos:#x}"));
                                    }
                                }
                                Err(e) => {
                                    out = Err(e.to_string());
                                    let q = rd.stream_position().map_err(|e| e.to_string())?;
                                    if q != pos {
                                        return Err(format!("a failed read moved the position from {pos:#x} to {q:#x}"));
                                    }
                                    failures += 1;
                                    if failures > 3 {
                                        break;
                                    }
                                }
                            }
                        }
                        out
                    }
                }
            }
            5 => {
                let files = tree_files(&m.tree);
                if files.is_empty() {
                    continue;
                }
                let (p, off, l) = c.rng.pick(&files).clone();
                let want = &m.plain[off as usize..off as usize + l as usize];
                let mut w = i.open_file(&mut r, &pathstr(&p)).ok_or("file cannot be opened")?;
                let mut b = vec![];
                match w.read_to_end(&mut b) {
                    Ok(_) => {
                        expect_eq("file under faults", &b, want)?;
                        Ok(())
                    }
                    Err(e) => {
                        // what was delivered before the error must still be right
                        let k = b.len().min(want.len());
                        expect_eq("file part under faults", &b[..k], &want[..k])?;
                        // and the same window goes on correctly from where it says it is
                        let q = w.stream_position().map_err(|e| e.to_string())?;
                        if q != k as u64 {
                            return Err(format!("window position {q} after {k} bytes and an error"));
                        }
                        Err(e.to_string())
                    }
                }
            }
            6 => {
                let g = &d.parts[d.disc.tables.iter().flat_map(|t| t.1.clone()).nth(k).unwrap()];
                match c.rng.below(5) {
                    0 => i.read_tmd(&mut r).map_err(|e| e.to_string()).and_then(|t| {
                        expect_eq("TMD under faults", &tmd_bytes(&t), &g.sys.tmd).map_err(|e| format!("!{e}"))
                    }),
                    1 => i.read_certificates(&mut r).map_err(|e| e.to_string()).and_then(|t| {
                        expect_eq("certificates under faults", &certs_bytes(&t), &g.sys.certs).map_err(|e| format!("!{e}"))
                    }),
                    2 => i.read_bi2(&mut r).map_err(|e| e.to_string()).and_then(|t| {
                        expect_eq("bi2 under faults", &t, &g.sys.bi2).map_err(|e| format!("!{e}"))
                    }),
                    3 => i.read_apploader(&mut r).map_err(|e| e.to_string()).and_then(|t| {
                        expect_eq("apploader under faults", &t, &g.sys.apploader).map_err(|e| format!("!{e}"))
                    }),
                    _ => i.read_dol(&mut r).map_err(|e| e.to_string()).and_then(|t| {
                        expect_eq("DOL under faults", &t, &g.sys.dol).map_err(|e| format!("!{e}"))
                    }),
                }
            }
            _ => r.open_partition(entries[k].clone()).map_err(|e| e.to_string()).and_then(|x| {
                if from_fst(x.get_fst()) == m.tree {
                    Ok(())
                } else {
                    Err("!reopening under faults returned a different tree".into())
                }
            }),
        };
        match res {
            Ok(()) => c.st.add("operations ok", 1),
            Err(e) if e.starts_with('!') => return Err(e[1..].to_string()),
            Err(e) => {
                c.st.add("operations failed", 1);
                if r.file.n_err == before {
                    return Err(format!("step {step}: operation {op} failed without an injected error: {e}"));
                }
            }
        }
    }
    // the faults stop: everything must be readable again on the same objects
    r.file.noise = Noise::default();
    for (i, m) in infos.iter_mut().zip(&models) {
        let mut b = vec![];
        i.get_crypto_reader(&mut r)
            .read_into_vec(0, m.plain.len() as u64, &mut b)
            .map_err(|e| format!("read after the faults stopped: {e}"))?;
        expect_eq("data after the faults stopped", &b, &m.plain)?;
        for (p, off, l) in tree_files(&m.tree) {
            b.clear();
            let mut f = i.open_file(&mut r, &pathstr(&p)).ok_or("file cannot be opened after the faults stopped")?;
            f.read_to_end(&mut b).map_err(|e| format!("file read after the faults stopped: {e}"))?;
            expect_eq("file after the faults stopped", &b, &m.plain[off as usize..off as usize + l as usize])?;
        }
    }
    c.st.add("errors injected", r.file.n_err);
    c.st.add("short reads injected", r.file.n_short);
    c.st.add("interrupts injected", r.file.n_intr);
    c.st.distinct(hsh);
    c.st.sample(|| {
        format!(
            "{n} partitions, error rate {errs}/256: {} errors, {} short reads, {} interrupts injected",
            r.file.n_err, r.file.n_short, r.file.n_intr
        )
    });
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C09: Prop = Prop {
    id: "C09",
    run: c09,
    quick: 6000000,
    thorough: 150000000,
    rule: "a case is one history of window operations (plain or nested window, with or without length, over a source with short transfers, interrupts and errors, at a random initial position), compared step by step with a byte-array model; distinct by geometry and history",
    need: &[("reads", 50_000), ("writes", 50_000), ("relative seeks", 20_000), ("exact reads", 20_000), ("nested windows", 10_000), ("operations failed", 5_000)],
};

trait Rws: Read + Write + Seek {}
impl<T: Read + Write + Seek> Rws for T {}

fn c09(c: &mut Case) -> Res {
    if c.idx % 24 == 7 {
        return c09_far(c);
    }
    let rng = &mut c.rng;
    let n = rng.range(1, 300) as usize;
    let data = rng.bytes(n);
    let mut store = Store::new(data.clone());
    store.pos = rng.below(n as u64 + 5);
    let noisy = rng.chance(1, 2);
    let err = if noisy { *rng.pick(&[0u64, 10, 60]) } else { 0 };
    if noisy {
        store.noise = Noise {
            rng: Some(rng.fork()),
            short: 80,
            intr: 20,
            zero: false,
            err,
        };
    }
    let nested = rng.chance(1, 3);
    let start = rng.below(n as u64 + 4);
    let len = if rng.chance(2, 3) { Some(*rng.pick(&[0, 1, 5, 20, 60, 200]) + rng.below(8)) } else { None };
    let mut geometry = format!("source {n} bytes at {}, window {start}+{len:?}", store.pos);
    let fin;
    if nested {
        c.st.add("nested windows", 1);
        let s2 = rng.below(30);
        let l2 = if rng.chance(1, 2) { Some(rng.below(50)) } else { None };
        geometry += &format!(" in which {s2}+{l2:?}");
        let mut inner = IOWindow::new(&mut store, start, len);
        if rng.chance(1, 2) {
            let _ = inner.seek(SeekFrom::Start(rng.below(40)));
        }
        let mut w = IOWindow::new(&mut inner, s2, l2);
        fin = c09_run(rng, &mut w, &data, start + s2, l2, len.map(|l| start + l), err > 0, noisy, c.st);
    } else {
        let mut w = IOWindow::new(&mut store, start, len);
        fin = c09_run(rng, &mut w, &data, start, len, None, err > 0, noisy, c.st);
    }
    let fin = fin.map_err(|e| format!("{e} ({geometry})"))?;
    c09_end(c, &store, fin, geometry)
}

fn c09_end(c: &mut Case, store: &Store, fin: (Vec<u8>, u64, bool), geometry: String) -> Res {
    let (model, h, exact) = fin;
    if exact {
        expect_eq(&format!("source contents after the history ({geometry})"), &store.data, &model)?;
    }
    c.st.distinct(h ^ hash_bytes(geometry.as_bytes()));
    c.st.sample(|| geometry);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn c09_run(
    rng: &mut Rng,
    w: &mut dyn Rws,
    data: &[u8],
    start: u64,
    len: Option<u64>,
    outer_limit: Option<u64>,
    errs: bool,
    noisy: bool,
    st: &mut Stats,
) -> Result<(Vec<u8>, u64, bool), String> {
    let mut model = data.to_vec();
    let mut pos = 0u64;
    let mut h = 0u64;
    let mut trace: Vec<String> = vec![];
    // absolute position up to which bytes may be touched
    let lim = |pos: u64| -> u64 {
        let a = len.map(|l| l.saturating_sub(pos)).unwrap_or(u64::MAX);
        let b = outer_limit.map(|o| o.saturating_sub(start + pos)).unwrap_or(u64::MAX);
        a.min(b)
    };
    macro_rules! bad {
        ($($a:tt)*) => { return Err(format!("{} after [{}]", format!($($a)*), trace.join(", "))) };
    }
    for _ in 0..rng.range(1, 14) {
        let op = rng.below(12);
        let avail = |pos: u64, model: &Vec<u8>| (model.len() as u64).saturating_sub(start + pos).min(lim(pos));
        match op {
            0 | 1 => {
                let n = rng.below(40) as usize;
                trace.push(format!("read {n} at {pos}"));
                let mut b = vec![0xEE; n];
                match w.read(&mut b) {
                    Ok(g) => {
                        let a = avail(pos, &model);
                        if g as u64 > a || g > n {
                            bad!("read returned {g} bytes, {a} are in the window");
                        }
                        if g == 0 && n > 0 && a > 0 {
                            bad!("read returned nothing although {a} bytes are left");
                        }
                        if g > 0 && b[..g] != model[(start + pos) as usize..][..g] {
                            bad!("read returned wrong bytes");
                        }
                        if b[g..].iter().any(|x| *x != 0xEE) {
                            bad!("read touched the buffer past its count");
                        }
                        pos += g as u64;
                        st.add("reads", 1);
                    }
                    Err(e) => {
                        if !noisy || (!errs && e.kind() != io::ErrorKind::Interrupted) {
                            bad!("read failed: {e}");
                        }
                        st.add("operations failed", 1);
                    }
                }
            }
            2 | 3 => {
                let n = rng.below(40) as usize;
                trace.push(format!("write {n} at {pos}"));
                let b = rng.bytes(n);
                match w.write(&b) {
                    Ok(g) => {
                        let a = lim(pos);
                        if g as u64 > a || g > n {
                            bad!("write took {g} bytes, window has room for {a}");
                        }
                        if g == 0 && n > 0 && a > 0 {
                            bad!("write took nothing although there is room for {a} bytes");
                        }
                        if g > 0 {
                            put(&mut model, (start + pos) as usize, &b[..g]);
                        }
                        pos += g as u64;
                        st.add("writes", 1);
                    }
                    Err(e) => {
                        if !noisy || (!errs && e.kind() != io::ErrorKind::Interrupted) {
                            bad!("write failed: {e}");
                        }
                        st.add("operations failed", 1);
                    }
                }
            }
            4 | 5 => {
                let n = match rng.below(3) {
                    0 => avail(pos, &model).min(100) as usize,
                    1 => (avail(pos, &model).min(100) as usize).saturating_sub(rng.below(10) as usize),
                    _ => rng.below(60) as usize,
                };
                trace.push(format!("read_exact {n} at {pos}"));
                let a = avail(pos, &model);
                let mut b = vec![0; n];
                match w.read_exact(&mut b) {
                    Ok(()) => {
                        if n as u64 > a {
                            bad!("read_exact of {n} succeeded with {a} bytes left");
                        }
                        if n > 0 && b[..] != model[(start + pos) as usize..][..n] {
                            bad!("read_exact returned wrong bytes");
                        }
                        pos += n as u64;
                        st.add("exact reads", 1);
                    }
                    Err(e) => {
                        if n as u64 <= a && !errs {
                            bad!("read_exact of {n} failed with {a} bytes left: {e}");
                        }
                        st.add("operations failed", 1);
                        // how far a failed exact read gets is open; go on from a defined place
                        let q = w.stream_position();
                        match q {
                            Ok(q) if q >= pos && q <= pos + n as u64 => pos = q,
                            Ok(q) => bad!("position {q} after a failed read_exact of {n} at {pos}"),
                            Err(_) if errs => {}
                            Err(e) => bad!("stream_position: {e}"),
                        }
                    }
                }
            }
            6 => {
                let t = match rng.below(12) {
                    0 => u64::MAX - rng.below(3),
                    1 => (1 << 40) + rng.below(100),
                    _ => rng.below(330),
                };
                trace.push(format!("seek to {t}"));
                match w.seek(SeekFrom::Start(t)) {
                    Ok(g) if g == t => pos = g,
                    Ok(g) => bad!("seek to {t} reports {g}"),
                    Err(_) if start.checked_add(t).is_none() => {}
                    Err(e) => {
                        if !errs {
                            bad!("seek failed: {e}");
                        }
                        st.add("operations failed", 1);
                        pos = after_seek(w, pos, t, errs).map_err(|e| format!("{e} after [{}]", trace.join(", ")))?;
                    }
                }
                if pos > 1 << 20 {
                    // far outside: only the position matters, a write there would be huge
                    let mut b = [0; 3];
                    match w.read(&mut b) {
                        Ok(0) | Err(_) => {}
                        Ok(g) => bad!("read {g} bytes at position {pos}"),
                    }
                    loop {
                        if let Ok(g) = w.seek(SeekFrom::Start(0)) {
                            pos = g;
                            break;
                        } else if !errs {
                            bad!("seek to 0 failed");
                        }
                    }
                }
            }
            7 | 8 => {
                let d = if rng.chance(1, 8) { -(pos as i64) - rng.range(1, 50) as i64 } else { rng.below(80) as i64 - 40 };
                trace.push(format!("seek by {d} from {pos}"));
                let t = pos as i64 + d;
                match w.seek(SeekFrom::Current(d)) {
                    Ok(g) => {
                        if !(g as i64 == t || (t < 0 && g == 0)) {
                            bad!("relative seek reports {g}, expected {t}");
                        }
                        pos = g;
                        st.add("relative seeks", 1);
                    }
                    Err(e) => {
                        if t >= 0 && !errs {
                            bad!("relative seek failed: {e}");
                        }
                        st.add("operations failed", 1);
                        pos = after_seek(w, pos, t.max(0) as u64, errs).map_err(|e| format!("{e} after [{}]", trace.join(", ")))?;
                    }
                }
            }
            9 => {
                let d = rng.below(60) as i64 - 45;
                trace.push(format!("seek to end {d}"));
                let r = w.seek(SeekFrom::End(d));
                match (len, r) {
                    (Some(l), Ok(g)) => {
                        let t = l as i64 + d;
                        if !(g as i64 == t || (t < 0 && g == 0)) {
                            bad!("seek from end reports {g}, expected {t}");
                        }
                        pos = g;
                    }
                    (Some(l), Err(e)) => {
                        let t = l as i64 + d;
                        if t >= 0 && !errs {
                            bad!("seek from end failed: {e}");
                        }
                        st.add("operations failed", 1);
                        pos = after_seek(w, pos, t.max(0) as u64, errs).map_err(|e| format!("{e} after [{}]", trace.join(", ")))?;
                    }
                    // without a length the end is not defined; wherever it goes, it must say so
                    (None, Ok(g)) => pos = g,
                    (None, Err(_)) => {}
                }
            }
            10 => {
                trace.push("position".into());
                match w.stream_position() {
                    Ok(q) if q == pos => {}
                    Ok(q) => bad!("position reported {q}, expected {pos}"),
                    Err(_) if errs => {}
                    Err(e) => bad!("stream_position: {e}"),
                }
            }
            _ => {
                trace.push("flush".into());
                if let Err(e) = w.flush() {
                    if !errs {
                        bad!("flush: {e}");
                    }
                }
            }
        }
        h = mix(h ^ op ^ pos << 8);
    }
    Ok((model, h, true))
}

/// windows whose start, length or positions do not fit 32 bits
fn c09_far(c: &mut Case) -> Res {
    const K: u64 = 1 << 32;
    let rng = &mut c.rng;
    let near = |rng: &mut Rng, v: u64| (v + rng.below(40)).saturating_sub(20);
    let pick = |rng: &mut Rng| {
        let v = *rng.pick(&[0u64, 100, K / 2, K - 1, K, K, 2 * K, 3 * K, 6_000_000_000]);
        near(rng, v)
    };
    let size = 5 * K + rng.below(1000);
    let seed = rng.next();
    let mut src = Far { size, seed, pos: pick(rng), over: Default::default() };
    let mut over: std::collections::BTreeMap<u64, u8> = Default::default();
    let start = pick(rng);
    let len = if rng.chance(3, 4) {
        let v = *rng.pick(&[K / 2, K, K, 2 * K, K + K / 2, 7 * K]);
        Some(near(rng, v))
    } else {
        None
    };
    let geometry = format!("virtual source of {size} bytes, window {start}+{len:?}");
    let mut pos = 0u64;
    let mut h = 0u64;
    let mut trace: Vec<String> = vec![];
    {
        let mut w = IOWindow::new(&mut src, start, len);
        let room = |pos: u64| len.map_or(u64::MAX, |l| l.saturating_sub(pos));
        for _ in 0..rng.range(1, 10) {
            let op = rng.below(7);
            let e = match op {
                0 | 1 => {
                    let n = rng.range(1, 40) as usize;
                    trace.push(format!("read {n} at {pos}"));
                    let exact = rng.chance(1, 3);
                    let a = size.max(over.keys().last().map_or(0, |k| k + 1)).saturating_sub(start + pos).min(room(pos)).min(n as u64) as usize;
                    let mut b = vec![0xEE; n];
                    let g = if exact { w.read_exact(&mut b).map(|_| n) } else { w.read(&mut b) };
                    match g {
                        Ok(g) if g > a => Some(format!("{g} bytes returned, {a} are in the window")),
                        Ok(0) if a > 0 => Some("nothing returned".into()),
                        Ok(g) => {
                            let bad = (0..g).find(|i| {
                                let p = start + pos + *i as u64;
                                b[*i] != over.get(&p).copied().unwrap_or_else(|| far_byte(seed, p))
                            });
                            pos += g as u64;
                            bad.map(|i| format!("wrong byte {i}"))
                        }
                        Err(_) if exact && a < n => {
                            match w.stream_position() {
                                Ok(q) if q >= pos && q <= pos + n as u64 => {
                                    pos = q;
                                    None
                                }
                                q => Some(format!("position {q:?} after a failed exact read")),
                            }
                        }
                        Err(e) => Some(format!("failed: {e}")),
                    }
                }
                2 => {
                    let n = rng.range(1, 40) as usize;
                    trace.push(format!("write {n} at {pos}"));
                    let b = rng.bytes(n);
                    match w.write(&b) {
                        Ok(g) if g as u64 > room(pos) || g > n => Some(format!("took {g} bytes")),
                        Ok(0) if room(pos) > 0 => Some("took nothing".into()),
                        Ok(g) => {
                            for (i, x) in b[..g].iter().enumerate() {
                                over.insert(start + pos + i as u64, *x);
                            }
                            pos += g as u64;
                            None
                        }
                        Err(e) => Some(format!("failed: {e}")),
                    }
                }
                _ => {
                    let t = match len {
                        Some(l) if rng.chance(1, 2) => near(rng, l),
                        _ => pick(rng),
                    };
                    let from = match (rng.below(3), len) {
                        (0, Some(l)) => SeekFrom::End(t as i64 - l as i64),
                        (1, _) => SeekFrom::Current(t as i64 - pos as i64),
                        _ => SeekFrom::Start(t),
                    };
                    trace.push(format!("seek {from:?} at {pos}"));
                    match w.seek(from) {
                        Ok(g) if g == t => {
                            pos = t;
                            None
                        }
                        x => Some(format!("gives {x:?}, expected {t}")),
                    }
                }
            };
            if let Some(e) = e {
                return Err(format!("{e} after [{}] ({geometry})", trace.join(", ")));
            }
            h = mix(h ^ op ^ pos << 8);
        }
    }
    if src.over != over {
        return Err(format!("the source was changed elsewhere after [{}] ({geometry})", trace.join(", ")));
    }
    c.st.add("far windows", 1);
    c.st.distinct(h ^ hash_bytes(geometry.as_bytes()));
    c.st.sample(|| geometry);
    Ok(())
}

/// after a failed seek the position is the old one or the target
fn after_seek(w: &mut dyn Rws, old: u64, target: u64, errs: bool) -> Result<u64, String> {
    match w.stream_position() {
        Ok(q) if q == old || q == target => Ok(q),
        Ok(q) => Err(format!("position {q} after a failed seek from {old} to {target}")),
        Err(_) if errs => Ok(old),
        Err(e) => Err(format!("stream_position: {e}")),
    }
}

// ---------------------------------------------------------------------------------------------

pub const C22: Prop = Prop {
    id: "C22",
    run: c22,
    quick: 7000,
    thorough: 180000,
    rule: "a case is one reference-rendered image with up to a hundred entries spread over the four tables at random places; the listing and, for every distinct partition, ticket, TMD, certificates, headers and tree are compared; distinct by image",
    need: &[("entries listed", 3000), ("partitions opened", 500), ("images using several tables", 100), ("korean key", 100), ("type names understood", 1000), ("type names refused", 500)],
};

trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

/// The three type names in any ASCII letter case, and nothing else.
fn part_names(c: &mut Case) -> Res {
    const NAMES: [&str; 3] = ["DATA", "UPDATE", "CHANNEL"];
    let k = c.rng.below(3) as usize;
    let mut s: Vec<char> = NAMES[k].chars().collect();
    for ch in s.iter_mut() {
        if c.rng.chance(1, 2) {
            *ch = ch.to_ascii_lowercase();
        }
    }
    let i = c.rng.below(s.len() as u64) as usize;
    match c.rng.below(10) {
        0 => s.insert(i, *c.rng.pick(&['A', ' ', '\0', '_', '0'])),
        1 => drop(s.remove(i)),
        2 => s[i] = *c.rng.pick(&['A', 'x', '\u{ff21}', '\u{131}', '\u{17f}', '\u{212a}', '1']),
        3 => s.push(*c.rng.pick(&[' ', '\n', '\0', 'S'])),
        4 => s = s[..i].to_vec(),
        _ => {}
    }
    let s: String = s.into_iter().collect();
    let want = NAMES.iter().position(|n| s.eq_ignore_ascii_case(n)).map(|k| k as u32);
    let got = disc_riider::structs::WiiPartType::try_from_str(&s).map(kind_no);
    if got != want {
        return Err(format!("partition type name {s:?}: {got:?} instead of {want:?}"));
    }
    c.st.add(if want.is_some() { "type names understood" } else { "type names refused" }, 1);
    Ok(())
}

fn c22(c: &mut Case) -> Res {
    part_names(c)?;
    let n = *c.rng.pick(&[0usize, 1, 1, 2, 2, 3]);
    let mut d = gen::ref_disc(&mut c.rng, n, &mut |r, _| PartParams {
        groups: 1,
        max_nodes: 20,
        sorted: r.chance(1, 2),
        fancy: true,
        empty_dirs: true,
    });
    // more entries than partitions: tables may list a partition repeatedly
    if n > 0 && c.rng.chance(1, 2) {
        let mut large = false;
        for t in 0..4 {
            let mut k = *c.rng.pick(&[0u64, 0, 1, 3, 10, 40]);
            if !large && c.rng.chance(1, 50) {
                large = true;
                k = *c.rng.pick(&[127, 128, 255, 256, 257, 300, 1000, 4000]);
                c.st.add("tables of more than a hundred entries", 1);
            }
            for _ in 0..k {
                let p = c.rng.below(n as u64) as usize;
                d.disc.tables[t].1.push(p);
            }
        }
        let mut o = 0x40020 + 4 * c.rng.below(32);
        let mut order = [0usize, 1, 2, 3];
        c.rng.shuffle(&mut order);
        for t in order {
            d.disc.tables[t].0 = o;
            o += 8 * d.disc.tables[t].1.len() as u64 + 4 * c.rng.below(40);
        }
    }
    // a table may also lie behind the partitions
    let huge = n > 0 && c.idx % 1500 == 77;
    if huge {
        let t = c.rng.below(4) as usize;
        let k = c.rng.range(65530, 70000);
        d.disc.tables[t] = (0x6000_0000, (0..k).map(|_| c.rng.below(n as u64) as usize).collect());
        d.disc.tables[t].0 = (d.parts.iter().map(|p| p.part.end()).max().unwrap() + 63) & !3;
        c.st.add("tables of more than 65530 entries", 1);
    }
    let mut img = d.disc.render();
    if n > 0 && c.rng.chance(1, 4) {
        let t = c.rng.below(4) as usize;
        d.disc.tables[t].0 = ((img.len() as u64 + 63) & !3) + 4 * c.rng.below(20);
        img = d.disc.render();
    }
    // empty tables may hold any offset
    for t in 0..4 {
        if d.disc.tables[t].1.is_empty() && c.rng.chance(1, 2) {
            put32(&mut img, 0x40004 + 8 * t, c.rng.next() as u32);
        }
    }
    let src: Box<dyn ReadSeek> = if n > 0 && c.rng.chance(1, 4) {
        let (d2, s, _) = far_disc(&mut c.rng, n);
        d = d2;
        img = s.segs[&0].clone();
        c.st.add("far images", 1);
        Box::new(s)
    } else {
        Box::new(Cursor::new(img.clone()))
    };
    let want = d.disc.listing();
    let mut r = WiiIsoReader::open(src).map_err(|e| format!("open: {e}"))?;
    expect_eq("disc header", &header_bytes(r.get_header()), &d.disc.header)?;
    expect_eq("region", r.get_region(), &d.disc.region)?;
    let got: Vec<(u32, u64)> = r.partitions().iter().map(|p| (kind_no(p.get_type()), p.get_offset())).collect();
    if got != want {
        return Err(format!("listed {got:x?}, stored {want:x?}"));
    }
    c.st.add("entries listed", got.len() as u64);
    if d.disc.tables.iter().filter(|t| !t.1.is_empty()).count() > 1 {
        c.st.add("images using several tables", 1);
    }
    let order: Vec<usize> = d.disc.tables.iter().flat_map(|t| t.1.clone()).collect();
    let entries = r.partitions().to_vec();
    let mut done = std::collections::HashSet::new();
    let mut todo: Vec<usize> = (0..order.len()).collect();
    c.rng.shuffle(&mut todo);
    for i in todo {
        if !done.insert(order[i]) {
            continue;
        }
        let g = &d.parts[order[i]];
        let ctx = |e: String| format!("partition {i}: {e}");
        let mut p = r.open_partition(entries[i].clone()).map_err(|e| ctx(format!("open_partition: {e}")))?;
        if p.get_partition_offset() != g.part.off || kind_no(p.get_partition_type()) != g.part.kind {
            return Err(ctx("reports another offset or type".into()));
        }
        let h = p.get_partition_header();
        expect_eq("ticket", &ticket_bytes(&h.ticket), &ticket_defined(&g.sys.ticket)).map_err(ctx)?;
        expect_eq("title key", &h.ticket.title_key, &g.part.key()).map_err(ctx)?;
        if g.sys.ticket[0x1F1] == 1 {
            c.st.add("korean key", 1);
        }
        let f = [
            (h.tmd_size as u64, g.sys.tmd.len() as u64),
            (*h.tmd_off, g.part.tmd_off),
            (h.cert_chain_size as u64, g.sys.certs.len() as u64),
            (*h.cert_chain_off, g.part.cert_off),
            (*h.global_hash_table_off, g.part.h3_off),
            (*h.data_off, g.part.data_off),
            (*h.data_size, g.part.data_size),
        ];
        if let Some(k) = f.iter().position(|x| x.0 != x.1) {
            return Err(ctx(format!("header field {k} is {:#x}, stored {:#x}", f[k].0, f[k].1)));
        }
        expect_eq("inner header", &header_bytes(p.get_encrypted_header()), &g.sys.header).map_err(ctx)?;
        if from_fst(p.get_fst()) != g.tree {
            return Err(ctx("file tree differs".into()));
        }
        let t = p.read_tmd(&mut r).map_err(|e| ctx(format!("TMD: {e}")))?;
        expect_eq("TMD", &tmd_bytes(&t), &g.sys.tmd).map_err(ctx)?;
        let cc = p.read_certificates(&mut r).map_err(|e| ctx(format!("certificates: {e}")))?;
        expect_eq("certificates", &certs_bytes(&cc), &g.sys.certs).map_err(ctx)?;
        let b = p.read_bi2(&mut r).map_err(|e| ctx(format!("bi2: {e}")))?;
        expect_eq("bi2", &b, &g.sys.bi2).map_err(ctx)?;
        let b = p.read_apploader(&mut r).map_err(|e| ctx(format!("apploader: {e}")))?;
        expect_eq("apploader", &b, &g.sys.apploader).map_err(ctx)?;
        let b = p.read_dol(&mut r).map_err(|e| ctx(format!("DOL: {e}")))?;
        expect_eq("DOL", &b, &g.sys.dol).map_err(ctx)?;
        c.st.add("partitions opened", 1);
    }
    c.st.distinct(hash_bytes(&img[..0x4E020]));
    c.st.sample(|| format!("tables {:x?}, {n} partitions", d.disc.tables));
    Ok(())
}
