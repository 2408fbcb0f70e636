//! Build scenarios: a system area, a tree and file contents, biased towards boundary alignments.

use crate::gen::{self, Path, Sys, TreeParams};
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, Rng};
use std::collections::BTreeMap;
use std::io::Cursor;

#[derive(Clone)]
pub struct Scen {
    pub sys: Sys,
    pub tree: Vec<RNode>,
    pub files: BTreeMap<Path, Vec<u8>>,
    pub label: &'static str,
}

impl Scen {
    pub fn signature(&self) -> u64 {
        let mut b = vec![];
        for (p, d, n) in self.files.iter().map(|(p, d)| (p, d.first().copied().unwrap_or(0), d.len())) {
            b.extend_from_slice(p.join("/").as_bytes());
            b.extend_from_slice(&(n as u64).to_le_bytes());
            b.push(d);
        }
        for (p, is_dir) in tree_nodes(&self.tree) {
            if is_dir {
                b.extend_from_slice(p.join("/").as_bytes());
            }
        }
        b.extend_from_slice(&(self.sys.dol.len() as u64).to_le_bytes());
        b.extend_from_slice(&(self.sys.apploader.len() as u64).to_le_bytes());
        hash_bytes(&b)
    }
    pub fn total(&self) -> u64 {
        self.files.values().map(|v| v.len() as u64).sum()
    }
    pub fn describe(&self) -> String {
        let mut f: Vec<String> = self
            .files
            .iter()
            .take(4)
            .map(|(p, d)| format!("{}[{}]", p.join("/"), d.len()))
            .collect();
        if self.files.len() > 4 {
            f.push("...".into());
        }
        format!(
            "{}: {} files, {} bytes, apploader {:#x}, dol {:#x}, {} TMD contents; {}",
            self.label,
            self.files.len(),
            self.total(),
            self.sys.apploader.len(),
            self.sys.dol.len(),
            (self.sys.tmd.len() - 0x1E4) / 36,
            f.join(" ")
        )
    }
}

#[derive(Clone, Copy)]
pub struct ScenOpts {
    /// tree must exist as a real directory (sorted, no odd names)
    pub dir: bool,
    /// allow the expensive kinds
    pub big: bool,
    pub max_nodes: usize,
    pub budget: u64,
}

fn zeros(tree: &[RNode]) -> BTreeMap<Path, Vec<u8>> {
    tree_files(tree).into_iter().map(|(p, _, _)| (p, vec![])).collect()
}

/// where the first file lands (learned from the builder itself, so no layout is assumed)
fn probe(s: &Scen) -> Option<u64> {
    let empty = zeros(&s.tree);
    let mut def = Def::new(&s.sys, &s.tree, &empty);
    let mut c = Cursor::new(Vec::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        build_def(&mut c, 0, &mut def, &mut |_| ()).ok()
    }));
    r.ok()??;
    let img = c.into_inner();
    let v = open_part_opt(&img, 0, list_parts(&img).ok()?.first()?.1, false).ok()?;
    tree_files(&v.fst).first().map(|f| f.1)
}

/// sizes chosen so that successive files end at/around group (or block) boundaries
fn align_files(rng: &mut Rng, s: &mut Scen, max_files: usize) {
    let Some(start) = probe(s) else { return };
    let mut pos = start;
    let order: Vec<Path> = tree_files(&s.tree).into_iter().map(|f| f.0).collect();
    let unit0 = GRPD as u64;
    for (i, p) in order.iter().enumerate() {
        let len = if i < max_files {
            let unit = if i == 0 { unit0 } else { *rng.pick(&[unit0, BLKD as u64, BLKD as u64, 0x400]) };
            let target = (pos / unit + 1) * unit;
            let d = *rng.pick(&[-65i64, -64, -63, -1, 0, 0, 0, 1, 2, 63, 64, 65]);
            (target as i64 + d - pos as i64).max(0) as u64
        } else {
            rng.below(3)
        };
        s.files.insert(p.clone(), gen::content(rng.next(), len as usize));
        pos = (pos + len + 63) & !63;
    }
}

pub const KINDS: u64 = 13;

pub fn scenario(rng: &mut Rng, kind: u64, o: ScenOpts) -> Scen {
    let tp = TreeParams {
        max_nodes: o.max_nodes,
        max_depth: 6,
        sorted: o.dir || rng.chance(1, 2),
        allow_empty_dirs: true,
        fancy: true,
    };
    let f = |n: &str| RNode::File {
        name: n.into(),
        off: 0,
        len: 0,
    };
    match kind {
        0 => Scen {
            sys: gen::sys(rng, None),
            tree: vec![],
            files: BTreeMap::new(),
            label: "no files",
        },
        1 => {
            let tree = vec![RNode::Dir {
                name: "d".into(),
                kids: vec![f("empty"), f("empty2")],
            }];
            Scen {
                sys: gen::sys(rng, None),
                files: zeros(&tree),
                tree,
                label: "only empty files",
            }
        }
        2 => {
            // file table straddles a group boundary
            let tree = gen::tree(rng, TreeParams { max_nodes: 60, ..tp });
            let fl = fst_encode(&tree, NameLayout::default()).len() as u64 + 64;
            let g = GRPD as u64 * rng.range(1, 2);
            let at = g - rng.below(fl + 64);
            let files = gen::contents(rng, &tree, 100_000);
            Scen {
                sys: gen::sys(rng, Some(at)),
                files,
                tree,
                label: "file table straddles a group boundary",
            }
        }
        3 => {
            // file table entirely in a later group, file data after it
            let tree = gen::tree(rng, TreeParams { max_nodes: 20, ..tp });
            let at = GRPD as u64 * rng.range(1, 3) + rng.below(0x1000);
            let files = gen::contents(rng, &tree, o.budget);
            Scen {
                sys: gen::sys(rng, Some(at)),
                files,
                tree,
                label: "file table in a later group",
            }
        }
        4 | 5 => {
            let mut tree = gen::tree(rng, TreeParams { max_nodes: 8, max_depth: 3, ..tp });
            if tree_files(&tree).is_empty() {
                tree = vec![f("a.bin"), f("b.bin")];
            }
            let mut s = Scen {
                sys: gen::sys(rng, None),
                files: zeros(&tree),
                tree,
                label: "file ends on a group boundary",
            };
            let n = if kind == 4 { 1 } else { 3 };
            align_files(rng, &mut s, n);
            s
        }
        6 if o.big => {
            // above the 16 MiB write batch
            let tree = vec![f("0small"), f("big.bin"), f("c_tail"), f("z_end")];
            let mut files = BTreeMap::new();
            let n = 0x1_000_000 + *rng.pick(&[0usize, 1, 0x7c00, 0x123456, 0x1_000_000]);
            files.insert(vec!["0small".to_string()], gen::content(rng.next() | 2, 100));
            files.insert(vec!["big.bin".to_string()], Rng::new(rng.next()).bytes(n));
            files.insert(vec!["c_tail".to_string()], gen::content(rng.next() | 2, 12345));
            files.insert(vec!["z_end".to_string()], vec![]);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "file larger than 16 MiB",
            }
        }
        7 => {
            let d = rng.range(20, 100) as usize;
            let tree = gen::deep_tree(rng, d);
            let files = gen::contents(rng, &tree, 50_000);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "deep nesting",
            }
        }
        8 if o.big => {
            // name table beyond 64 KiB
            let tree = gen::wide_tree(rng, 2200, 40);
            let files = gen::contents(rng, &tree, 200_000);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "thousands of files",
            }
        }
        9 if o.big => {
            // file table larger than one group
            let tree = gen::wide_tree(rng, 20_000, 100);
            let files = gen::contents(rng, &tree, 20_000);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "file table larger than a group",
            }
        }
        10 => {
            // long runs of full groups: data that is a whole number of groups
            let tree = vec![f("A"), f("b"), f("C")];
            let mut files = BTreeMap::new();
            for n in ["A", "b", "C"] {
                let k = rng.range(0, 2) * GRPD as u64 + *rng.pick(&[0u64, 0, 1, 64]);
                files.insert(vec![n.to_string()], gen::content(rng.next() | 2, k as usize));
            }
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "whole-group files",
            }
        }
        11 => {
            // tricky orderings, everything small
            let mut names: Vec<&str> = gen::TRICKY.to_vec();
            rng.shuffle(&mut names);
            names.truncate(rng.range(2, 30) as usize);
            let mut tree: Vec<RNode> = vec![];
            let mut used = std::collections::HashSet::new();
            for n in names {
                if !used.insert(lower(n)) {
                    continue;
                }
                if rng.chance(1, 4) {
                    tree.push(RNode::Dir {
                        name: n.into(),
                        kids: vec![f("x"), f("Y")],
                    });
                } else {
                    tree.push(f(n));
                }
            }
            if o.dir || rng.chance(1, 2) {
                tree.sort_by_key(|n| lower(n.name()));
            }
            let files = gen::contents(rng, &tree, 5_000);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "ordering",
            }
        }
        13 if o.big => {
            // many write batches
            let tree = vec![f("0small"), f("big.bin"), f("c_tail")];
            let mut files = BTreeMap::new();
            let n = 0x8_000_000 + rng.below(0x800_000) as usize;
            files.insert(vec!["0small".to_string()], gen::content(rng.next() | 2, 100));
            files.insert(vec!["big.bin".to_string()], Rng::new(rng.next()).bytes(n));
            files.insert(vec!["c_tail".to_string()], gen::content(rng.next() | 2, 12345));
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "file larger than 128 MiB",
            }
        }
        14 if o.big => {
            // more nodes than 16 bits can number
            let tree = gen::huge_tree(rng);
            let files = gen::contents(rng, &tree, 20_000);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "more than 65536 files",
            }
        }
        15 if o.big => {
            // a file table that starts on a group boundary and nearly fills the group
            let want = GRPD - *rng.pick(&[64usize, 1000, 0x3000, 0x7000, 0x7c00, 0x8000]);
            let name = |i: usize, n: usize| {
                let mut s = format!("f{i:06}");
                s.extend(std::iter::repeat('k').take(n - s.len()));
                s
            };
            let n = want / (12 + 241);
            let mut tree: Vec<RNode> = (0..n).map(|i| f(&name(i, 240))).collect();
            let now = fst_encode(&tree, NameLayout::default()).len();
            if want > now + 40 && want - now < 280 {
                tree.push(f(&name(n, (want - now - 13).min(240))));
            }
            let mut files = zeros(&tree);
            let (first, last) = (tree[0].name().to_string(), tree[n - 1].name().to_string());
            files.insert(vec![first], gen::content(rng.next() | 2, 5000));
            files.insert(vec![last], gen::content(rng.next() | 2, 0x30000));
            let mut sys = gen::sys(rng, None);
            let dol_at = (0x2440 + sys.apploader.len()).next_multiple_of(0x20);
            sys.dol = gen::dol(rng, GRPD - dol_at);
            Scen { sys, files, tree, label: "file table fills a group" }
        }
        _ => {
            let tree = gen::tree(rng, tp);
            let files = gen::contents(rng, &tree, o.budget);
            Scen {
                sys: gen::sys(rng, None),
                files,
                tree,
                label: "random tree",
            }
        }
    }
}

/// directed kinds first, then a mix
pub fn pick_scenario(rng: &mut Rng, idx: u64, o: ScenOpts) -> Scen {
    let kind = if idx < KINDS * 2 {
        idx % KINDS
    } else if idx < KINDS * 2 + 3 {
        13 + idx - KINDS * 2
    } else {
        let k = rng.below(40);
        // the expensive kinds stay rare
        match k {
            13 | 14 | 15 => {
                if rng.chance(1, 500) {
                    k
                } else {
                    12
                }
            }
            6 | 8 | 9 => {
                if rng.chance(1, 12) {
                    k
                } else {
                    12
                }
            }
            k => k,
        }
    };
    scenario(rng, kind, o)
}

/// the scenario's tree as the directory scan will see it
pub fn sorted_pruned(tree: &[RNode]) -> Vec<RNode> {
    fn sort(t: &mut Vec<RNode>) {
        t.sort_by_key(|n| lower(n.name()));
        for n in t {
            if let RNode::Dir { kids, .. } = n {
                sort(kids)
            }
        }
    }
    let mut t = prune(tree);
    sort(&mut t);
    t
}
