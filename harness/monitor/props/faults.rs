//! C13 and C14: builds onto failing or interrupted storage.

use crate::faultio::*;
use crate::gen;
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use crate::scen::*;
use disc_riider::builder::WiiDiscBuilder;
use disc_riider::WiiIsoReader;
use std::io::{Cursor, ErrorKind};
use std::path::PathBuf;

/// what is built: a directory, or a list of partition definitions
enum Job {
    Dir(PathBuf, Scen),
    Defs(Vec<(u32, Scen)>),
}

fn small(dir: bool, thorough: bool) -> ScenOpts {
    ScenOpts {
        dir,
        big: false,
        max_nodes: 12,
        budget: if thorough { 3_000_000 } else { 600_000 },
    }
}

fn job(c: &mut Case, rng: &mut Rng, multi: bool) -> Result<Job, String> {
    // kinds that revisit groups (table straddling or before later data) come up often
    let kind = |r: &mut Rng| *r.pick(&[2u64, 3, 4, 5, 7, 10, 11, 12, 12, 0, 1]);
    if multi || rng.chance(1, 2) {
        let n = if multi { rng.range(1, 3) } else { 1 };
        let mut v = vec![];
        for _ in 0..n {
            let k = if multi { *rng.pick(&[12u64, 12, 11, 1, 0, 4]) } else { kind(rng) };
            let s = scenario(rng, k, small(false, c.thorough));
            v.push((rng.below(3) as u32, s));
        }
        Ok(Job::Defs(v))
    } else {
        let k = kind(rng);
        let s = scenario(rng, k, small(true, c.thorough));
        let root = c.scratch.join("src");
        write_dir(rng, &root, &s.sys, &s.tree, &s.files).map_err(|e| format!("HARNESS: {e}"))?;
        Ok(Job::Dir(root, s))
    }
}

impl Job {
    fn build(&self, st: &mut Store) -> Result<(), String> {
        match self {
            Job::Dir(root, _) => build_dir(root, st, &mut |_| ()),
            Job::Defs(v) => {
                let s0 = &v[0].1;
                let h = parse_header(&s0.sys.header).map_err(|e| format!("{e}"))?;
                let mut b = WiiDiscBuilder::create(st, h, s0.sys.region);
                for (k, s) in v {
                    let mut d = Def::new(&s.sys, &s.tree, &s.files);
                    add_def(&mut b, *k, &mut d, &mut |_| ())?;
                }
                b.finish().map_err(|e| format!("finish: {e}"))
            }
        }
    }
    fn describe(&self) -> String {
        match self {
            Job::Dir(_, s) => format!("directory, {}", s.describe()),
            Job::Defs(v) => format!("{} definitions, first {}", v.len(), v[0].1.describe()),
        }
    }
    fn expected(&self) -> Vec<(u32, Scen)> {
        match self {
            Job::Dir(_, s) => vec![(
                0,
                Scen {
                    tree: sorted_pruned(&s.tree),
                    ..s.clone()
                },
            )],
            Job::Defs(v) => v.clone(),
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub const C13: Prop = Prop {
    id: "C13",
    run: c13,
    quick: 900,
    thorough: 22000,
    rule: "a case is one build repeated with a fault injected at chosen destination operations (every operation of four fixed builds is enumerated across the first 128 cases; later cases sample) and once with short and interrupted transfers; every fault must make the build fail, noise must not change a byte, success must leave nothing unflushed; distinct by (build, operation, fault)",
    need: &[
        ("faults fired", 1500),
        ("faults on write", 500),
        ("faults on read", 10),
        ("faults on seek", 50),
        ("faults on flush", 10),
        ("noisy builds", 100),
        ("short transfers", 300),
        ("interruptions", 300),
    ],
};

const SLICES: u64 = 32;

fn c13(c: &mut Case) -> Res {
    let enumerated = c.idx < 4 * SLICES;
    let mut rng = if enumerated {
        // four builds, each cut into slices of its operations
        Rng::new(mix(0xC13 + c.idx / SLICES))
    } else {
        c.rng.fork()
    };
    let multi = if enumerated { c.idx / SLICES == 3 } else { rng.chance(1, 6) };
    let j = job(c, &mut rng, multi)?;
    // reference run
    let mut clean = Store::new(vec![]);
    clean.log_ops = true;
    j.build(&mut clean).map_err(|e| format!("build without faults failed: {e} ({})", j.describe()))?;
    if clean.unflushed {
        return Err(format!("the build reported success with unflushed data ({})", j.describe()));
    }
    let ops = clean.op_log.clone();
    c.st.max("max_operations_per_build", ops.len() as u64);
    let points: Vec<u64> = if enumerated {
        (0..ops.len() as u64).filter(|k| k % SLICES == c.idx % SLICES).collect()
    } else {
        // a few points, biased towards rare operations (reads, flushes) and the end
        let mut v = vec![];
        for _ in 0..6 {
            v.push(match rng.below(4) {
                0 => {
                    let rare: Vec<u64> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Read | Op::Flush)).map(|i| i as u64).collect();
                    if rare.is_empty() {
                        0
                    } else {
                        *rng.pick(&rare)
                    }
                }
                1 => (ops.len() as u64).saturating_sub(1 + rng.below(30)),
                _ => rng.below(ops.len() as u64),
            });
        }
        v
    };
    for k in points {
        let op = ops[k as usize];
        let mut kinds = vec![(Fault::Err(ErrorKind::Other), rng.chance(1, 2))];
        if op == Op::Write {
            kinds.push((Fault::Partial, rng.chance(1, 2)));
            kinds.push((Fault::Zero, rng.chance(1, 2)));
        }
        if op == Op::Read {
            kinds.push((Fault::Err(ErrorKind::UnexpectedEof), false));
        }
        kinds.push((Fault::Err(*rng.pick(&[ErrorKind::StorageFull, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::PermissionDenied])), false));
        if matches!(op, Op::Seek | Op::Flush) {
            // nobody has to repeat these, but whoever does has to get it right
            kinds.push((Fault::Err(ErrorKind::Interrupted), false));
        }
        if !enumerated {
            let keep = *rng.pick(&kinds);
            kinds = vec![keep];
        }
        for (f, sticky) in kinds {
            let mut st = Store::new(vec![]);
            st.fault = Some((k, f));
            st.sticky = sticky;
            let r = catch(|| j.build(&mut st)).map_err(|e| format!("{e}, after {f:?} at operation {k} ({op:?}) ({})", j.describe()))?;
            if st.fired == 0 {
                // the fault never surfaced to the code (a partial write at the very end)
                c.st.add("faults not reached", 1);
                continue;
            }
            if r.is_ok() && matches!(f, Fault::Err(ErrorKind::Interrupted)) {
                if st.unflushed || st.data != clean.data {
                    return Err(format!(
                        "the build reported success with a different image after destination operation {k} of {} ({op:?}) was interrupted: {} ({})",
                        ops.len(),
                        diff_at(&st.data, &clean.data),
                        j.describe()
                    ));
                }
                c.st.add("interrupted seeks and flushes repeated", 1);
                continue;
            }
            if r.is_ok() {
                return Err(format!(
                    "the build reported success although destination operation {k} of {} ({op:?}) failed with {f:?}{} ({})",
                    ops.len(),
                    if sticky { " and kept failing" } else { "" },
                    j.describe()
                ));
            }
            c.st.add("faults fired", 1);
            c.st.add(
                match op {
                    Op::Read => "faults on read",
                    Op::Write => "faults on write",
                    Op::Seek => "faults on seek",
                    Op::Flush => "faults on flush",
                },
                1,
            );
            c.st.distinct(mix(k) ^ hash_bytes(format!("{f:?}{sticky}").as_bytes()) ^ hash_bytes(&clean.data[..0x40.min(clean.data.len())]));
        }
    }
    // transfers that are short or interrupted must not matter
    if !enumerated || c.idx % 8 == 0 {
        let mut st = Store::new(vec![]);
        st.noise = Noise {
            rng: Some(c.rng.fork()),
            short: *rng.pick(&[0u64, 40, 120, 200]),
            intr: *rng.pick(&[0u64, 20, 100]),
            err: 0,
            zero: false,
        };
        j.build(&mut st).map_err(|e| {
            format!(
                "build failed under {} short and {} interrupted transfers: {e} ({})",
                st.n_short,
                st.n_intr,
                j.describe()
            )
        })?;
        if st.unflushed {
            return Err("success reported with unflushed data".into());
        }
        if st.data != clean.data {
            return Err(format!(
                "image differs under {} short and {} interrupted transfers: {} ({})",
                st.n_short,
                st.n_intr,
                diff_at(&st.data, &clean.data),
                j.describe()
            ));
        }
        c.st.add("noisy builds", 1);
        c.st.add("short transfers", st.n_short);
        c.st.add("interruptions", st.n_intr);
    }
    c.st.sample(|| format!("{} operations; {}", ops.len(), j.describe()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C14: Prop = Prop {
    id: "C14",
    run: c14,
    quick: 3000,
    thorough: 80000,
    rule: "a case is one build whose every write is recorded; the destination after each prefix of the writes and after torn writes (all byte boundaries of small writes) is opened as an image and every partition it offers is checked completely; also builds whose definition or destination fails, followed by finish; distinct by destination state that was opened",
    need: &[
        ("crash states", 20_000),
        ("states that open", 1000),
        ("states listing a partition", 200),
        ("partitions offered and complete", 150),
        ("failed definitions", 60),
        ("failed destinations", 60),
    ],
};

/// every partition the image offers is complete and is one of the expected ones
fn judge(img: &[u8], want: &[(u32, Scen)], st: &mut Stats) -> Res {
    let r = catch(|| WiiIsoReader::open(Cursor::new(img))).map_err(|e| format!("opening: {e}"))?;
    let Ok(mut r) = r else {
        st.add("states that do not open", 1);
        return Ok(());
    };
    st.add("states that open", 1);
    let parts: Vec<_> = r.partitions().to_vec();
    if !parts.is_empty() {
        st.add("states listing a partition", 1);
    }
    let mut next = 0;
    for e in parts {
        let (k, off) = (kind_no(e.get_type()), e.get_offset());
        let p = catch(|| r.open_partition(e)).map_err(|e| format!("opening a partition: {e}"))?;
        if p.is_err() {
            st.add("partitions offered but not openable", 1);
            continue;
        }
        // which of the expected partitions is it? they appear in order
        let v = open_part(img, k, off).map_err(|e| format!("the partition listed at {off:#x} opens but is not complete: {e}"))?;
        let mut found = None;
        let mut why = String::new();
        for (i, (_, s)) in want.iter().enumerate().skip(next) {
            match matches_scen(&v, s) {
                Ok(()) => {
                    found = Some(i);
                    break;
                }
                Err(e) => {
                    if why.is_empty() {
                        why = e
                    }
                }
            }
        }
        match found {
            Some(i) => next = i + 1,
            None => return Err(format!("the partition listed at {off:#x} opens but is not what was being built: {why}")),
        }
        st.add("partitions offered and complete", 1);
    }
    Ok(())
}

// (a torn table entry may still show a wrong type: the type belongs to the table, not the partition)
fn matches_scen(v: &PartView, s: &Scen) -> Res {
    let (a, b) = (tree_nodes(&v.fst), tree_nodes(&s.tree));
    if a != b {
        return Err(format!("{} nodes instead of {}", a.len(), b.len()));
    }
    for (p, off, len) in tree_files(&v.fst) {
        expect_eq(&pathstr(&p), v.file(off, len)?, &s.files[&p])?;
    }
    let sys = &s.sys;
    let at = |o: u64, n: usize| v.plain.get(o as usize..o as usize + n).ok_or("outside the data".to_string());
    expect_eq("bi2", at(0x440, sys.bi2.len())?, &sys.bi2)?;
    expect_eq("apploader", at(0x2440, sys.apploader.len())?, &sys.apploader)?;
    expect_eq("DOL", at(v.dol_off, sys.dol.len())?, &sys.dol)?;
    expect_eq("certificates", &v.certs, &sys.certs)?;
    expect_eq("header", &gen::header_without_layout(&v.boot), &gen::header_without_layout(&sys.header))?;
    expect_eq("ticket", &ticket_defined(&v.ticket), &ticket_defined(&sys.ticket))?;
    expect_eq("TMD", &tmd_carried(&v.tmd), &tmd_carried(&sys.tmd))?;
    if v.tmd.len() >= 0x208 && v.tmd[0x1F4..0x208] != sha1(&v.h3) {
        return Err("TMD content hash does not match the hash table".into());
    }
    Ok(())
}

fn c14(c: &mut Case) -> Res {
    let mut rng = c.rng.fork();
    match c.idx % 4 {
        0 | 1 => crash_states(c, &mut rng),
        2 => failing_defs(c, &mut rng),
        _ => failing_dest(c, &mut rng),
    }
}

fn crash_states(c: &mut Case, rng: &mut Rng) -> Res {
    let multi = rng.chance(1, 3);
    let j = job(c, rng, multi)?;
    let want = j.expected();
    let mut st = Store::new(vec![]);
    st.log = Some(vec![]);
    j.build(&mut st).map_err(|e| format!("build failed: {e} ({})", j.describe()))?;
    let log = st.log.take().unwrap();
    let mut img: Vec<u8> = vec![];
    let n = log.len();
    let mut last_sig = 0u64;
    for (i, (pos, b)) in log.iter().enumerate() {
        let pos = *pos as usize;
        // torn forms of this write, then the whole of it
        let cuts: Vec<usize> = if b.len() <= 1 {
            vec![]
        } else if b.len() <= 64 {
            (1..b.len()).collect()
        } else {
            let mut v: Vec<usize> = (0..3).map(|_| rng.range(1, b.len() as u64 - 1) as usize).collect();
            v.sort();
            v
        };
        for cut in cuts.into_iter().chain([b.len()]) {
            let before = (img.len(), img.get(pos..pos + cut).map(|x| x == &b[..cut]));
            put(&mut img, pos, &b[..cut]);
            c.st.add("crash states", 1);
            if before.1 == Some(true) {
                continue; // same state as before
            }
            judge(&img, &want, c.st).map_err(|e| {
                format!(
                    "stopped after {i} of {n} writes and {cut} of {} bytes at {pos:#x}: {e} ({})",
                    b.len(),
                    j.describe()
                )
            })?;
            let sig = hash_bytes(&img[..img.len().min(0x40)]) ^ mix(img.len() as u64) ^ mix(i as u64 * 1000 + cut as u64);
            if sig != last_sig {
                c.st.distinct(sig);
                last_sig = sig;
            }
        }
    }
    c.st.add("builds recorded", 1);
    c.st.sample(|| format!("{n} writes; {}", j.describe()));
    Ok(())
}

/// some definitions fail part-way; the caller finishes the image or drops it
fn failing_defs(c: &mut Case, rng: &mut Rng) -> Res {
    let n = rng.range(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        let k = *rng.pick(&[12u64, 12, 11, 4, 7]);
        v.push((rng.below(3) as u32, scenario(rng, k, small(false, c.thorough))));
    }
    let bad = rng.below(n) as usize;
    let nf = v[bad].1.files.len();
    let fail = match rng.below(8) {
        0 => FailAt::Header,
        1 => FailAt::Bi2,
        2 => FailAt::Apploader,
        3 => FailAt::Fst,
        4 => FailAt::Dol,
        _ if nf > 0 => FailAt::File(rng.below(nf as u64) as usize),
        _ => FailAt::Dol,
    };
    let s0 = v[0].1.clone();
    let mut st = Store::new(vec![]);
    let mut ok = vec![];
    {
        let h = parse_header(&s0.sys.header).map_err(|e| format!("{e}"))?;
        let mut b = WiiDiscBuilder::create(&mut st, h, s0.sys.region);
        for (i, (k, s)) in v.iter().enumerate() {
            let mut d = Def::new(&s.sys, &s.tree, &s.files);
            if i == bad {
                d.fail = fail;
            }
            let r = add_def(&mut b, *k, &mut d, &mut |_| ());
            match r {
                Ok(()) if i == bad => return Err(format!("adding a partition whose definition fails at {fail:?} reported success")),
                Ok(()) => ok.push((*k, s.clone())),
                Err(_) if i == bad => c.st.add("failed definitions", 1),
                Err(e) => return Err(format!("partition {i} refused after a failed one: {e}")),
            }
            if i == bad && rng.chance(1, 4) {
                break;
            }
        }
        if rng.chance(3, 4) {
            b.finish().map_err(|e| format!("finish: {e}"))?;
        }
    }
    c.st.add("crash states", 1);
    c.st.distinct(hash_bytes(&st.data[..st.data.len().min(0x50000)]) ^ mix(st.data.len() as u64));
    judge(&st.data, &ok, c.st).map_err(|e| format!("after partition {bad} of {n} failed at {fail:?}: {e}"))
}

/// the destination fails once (or for good) part-way; whatever it holds then is judged
fn failing_dest(c: &mut Case, rng: &mut Rng) -> Res {
    let multi = rng.chance(1, 2);
    let j = job(c, rng, multi)?;
    let want = j.expected();
    let mut clean = Store::new(vec![]);
    j.build(&mut clean).map_err(|e| format!("build failed: {e}"))?;
    let ops = clean.ops;
    for _ in 0..4 {
        let k = if rng.chance(1, 2) { ops.saturating_sub(1 + rng.below(40)) } else { rng.below(ops) };
        let mut st = Store::new(vec![]);
        let f = *rng.pick(&[Fault::Err(ErrorKind::Other), Fault::Partial, Fault::Zero]);
        st.fault = Some((k, f));
        st.sticky = rng.chance(1, 2);
        let r = catch(|| j.build(&mut st))?;
        if st.fired == 0 || r.is_ok() {
            continue; // success despite a fault is C13's subject
        }
        c.st.add("failed destinations", 1);
        c.st.add("crash states", 1);
        c.st.distinct(hash_bytes(&st.data[..st.data.len().min(0x60)]) ^ mix(k) ^ mix(st.data.len() as u64));
        judge(&st.data, &want, c.st).map_err(|e| format!("after {f:?} at operation {k} of {ops}: {e} ({})", j.describe()))?;
    }
    Ok(())
}
