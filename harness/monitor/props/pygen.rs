//! `mon gen`: images and their models for the Python lane.

use crate::gen::{self, PartParams, TreeParams};
use crate::refwii::*;
use crate::rng::{mix, Rng};
use crate::runner::json_str;
use std::path::PathBuf;

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

const NAMES: [&str; 3] = ["DATA", "UPDATE", "CHANNEL"];

pub fn main(args: &[String]) -> i32 {
    let out = PathBuf::from(arg(args, "--out").expect("--out"));
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let from: u64 = arg(args, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let count: u64 = arg(args, "--count").and_then(|s| s.parse().ok()).unwrap_or(1);
    let mode = arg(args, "--mode").unwrap_or_else(|| "extract".into());
    let victim = arg(args, "--victim").unwrap_or_default();
    std::fs::create_dir_all(&out).unwrap();
    for i in from..from + count {
        let mut far = None;
        let mut rng = Rng::new(mix(seed ^ mix(i) ^ mix(mode.len() as u64 + 77)));
        let rng = &mut rng;
        let g = match mode.as_str() {
            "hostile" => hostile(rng, i, &victim),
            "overrun" => overrun(rng),
            _ if i % 60 == 29 => {
                let n = rng.range(1, 3) as usize;
                let (g, s, shifts) = super::read::far_disc(rng, n);
                far = Some((s, shifts));
                g
            }
            _ if i % 60 == 13 => {
                let depth = rng.range(20, 150) as usize;
                let t = gen::deep_tree(rng, depth);
                let kind = if rng.chance(2, 3) { 0 } else { rng.below(3) as u32 };
                single(rng, kind, 2, t)
            }
            _ => {
                let n = if i % 5 == 0 { 3 } else { rng.range(1, 3) as usize };
                let big = i % 7 == 3;
                let (wide, huge) = (i % 50 == 7, i % 100 == 11);
                gen::ref_disc(rng, n, &mut |r, k| PartParams {
                    groups: match k {
                        0 if huge => 14,
                        0 if wide => 5,
                        0 if big => 4,
                        _ => r.range(1, 2) as usize,
                    },
                    max_nodes: match k {
                        0 if huge => 4,
                        0 if wide => 4500,
                        _ => *r.pick(&[1usize, 5, 25, 60]),
                    },
                    sorted: false,
                    fancy: true,
                    empty_dirs: true,
                })
            }
        };
        let iso = out.join(format!("{i}.iso"));
        let mut shifts = vec![(usize::MAX / GRPD, 0); g.parts.len()];
        if let Some((s, sh)) = far {
            super::read::write_sparse(&iso, &s).unwrap();
            shifts = sh;
        } else {
            std::fs::write(&iso, g.disc.render()).unwrap();
        }
        let bytes = std::fs::metadata(&iso).unwrap().len();
        let listing = g.disc.listing();
        let mut secs = vec![];
        for kind in 0..3u32 {
            let Some((_, off)) = listing.iter().find(|x| x.0 == kind) else { continue };
            let pi = g.parts.iter().position(|p| p.part.off == *off).unwrap();
            let (p, shift) = (&g.parts[pi], shifts[pi]);
            let at = |o: u64| super::read::stored_at(o, shift);
            let fst_len = (be32(&p.sys.header, 0x428) as usize) << 2;
            let fst = &p.part.plain[at(p.fst_off)..][..fst_len];
            let sys: Vec<String> = [
                ("sys/boot.bin", &p.sys.header[..]),
                ("sys/bi2.bin", &p.sys.bi2[..]),
                ("sys/apploader.img", &p.sys.apploader[..]),
                ("sys/main.dol", &p.sys.dol[..]),
                ("sys/fst.bin", fst),
                ("disc/header.bin", &g.disc.header[..]),
                ("disc/region.bin", &g.disc.region[..]),
                ("cert.bin", &p.sys.certs[..]),
                ("tmd.bin", &p.sys.tmd[..]),
                ("ticket.bin", &p.sys.ticket[..]),
            ]
            .iter()
            .map(|(n, b)| format!("{}: [{}, \"{}\"]", json_str(n), b.len(), hex(&sha1(b))))
            .collect();
            let mut nodes = vec![];
            let files: std::collections::BTreeMap<_, _> = tree_files(&p.tree).into_iter().map(|(a, b, c)| (a, (b, c))).collect();
            for (path, is_dir) in tree_nodes(&p.tree) {
                let comps: Vec<String> = path.iter().map(|s| json_str(s)).collect();
                if is_dir {
                    nodes.push(format!("[[{}], null, null]", comps.join(", ")));
                } else {
                    let (o, l) = files[&path];
                    let b = &p.part.plain[at(o)..][..l as usize];
                    nodes.push(format!("[[{}], {}, \"{}\"]", comps.join(", "), l, hex(&sha1(b))));
                }
            }
            secs.push(format!(
                "{}: {{\"sys\": {{{}}}, \"dol_sha1\": \"{}\", \"nodes\": [{}]}}",
                json_str(NAMES[kind as usize]),
                sys.join(", "),
                hex(&sha1(&p.sys.dol)),
                nodes.join(", ")
            ));
        }
        let json = format!("{{\"image\": {i}, \"bytes\": {}, \"sections\": {{{}}}}}\n", bytes, secs.join(", "));
        std::fs::write(out.join(format!("{i}.json")), json).unwrap();
    }
    0
}

fn single(rng: &mut Rng, kind: u32, groups: usize, tree: Vec<RNode>) -> gen::GenDisc {
    let part = gen::ref_part_with(rng, 0x50000, kind, groups, tree);
    gen::GenDisc {
        disc: RDisc {
            header: gen::disc_header(rng),
            region: rng.arr(),
            tables: vec![(0x40020, vec![0]), (0x41000, vec![]), (0x41000, vec![]), (0x41000, vec![])],
            parts: vec![part.part.clone()],
        },
        parts: vec![part],
    }
}

/// an image whose file table gives one file more bytes than the partition has
fn overrun(rng: &mut Rng) -> gen::GenDisc {
    let mut tree;
    loop {
        tree = gen::tree(rng, TreeParams { max_nodes: 12, max_depth: 3, sorted: false, allow_empty_dirs: true, fancy: false });
        if !tree_files(&tree).is_empty() {
            break;
        }
    }
    let groups = rng.range(1, 2) as usize;
    let kind = rng.below(3) as u32;
    let mut g = single(rng, kind, groups, tree);
    let nodes = tree_nodes(&g.parts[0].tree);
    let idx: Vec<usize> = (0..nodes.len()).filter(|k| !nodes[*k].1).collect();
    let k = *rng.pick(&idx);
    let at = g.parts[0].fst_off as usize + 12 * (k + 1);
    let plain = &mut g.disc.parts[0].plain;
    let room = plain.len() as u64 - ((be32(plain, at + 4) as u64) << 2);
    let len = room + *rng.pick(&[1u64, 2, 0x10000, GRPD as u64, 0x7c00]);
    put32(plain, at + 8, len as u32);
    g
}

/// an image whose file table holds names no honest tool would write
fn hostile(rng: &mut Rng, i: u64, victim: &str) -> gen::GenDisc {
    let f = |n: &str| RNode::File {
        name: n.into(),
        off: 0,
        len: 0,
    };
    let mut tree = gen::tree(
        rng,
        TreeParams {
            max_nodes: 8,
            max_depth: 3,
            sorted: false,
            allow_empty_dirs: true,
            fancy: false,
        },
    );
    let abs = |s: &str| format!("{victim}/{s}");
    let d = |n: &str, kids: Vec<RNode>| RNode::Dir { name: n.into(), kids };
    // the number of ".." needed to leave DEST/SECTION/files and reach the victim next to DEST
    // (`deep` harmless directories lie around the evil name)
    let deep = if rng.chance(1, 2) { 0 } else { rng.range(1, 6) as usize };
    let up = |n: usize, leaf: &str| vec![".."; n + deep].join("/") + "/" + leaf;
    let ups = |inner: Vec<RNode>| (0..deep).fold(inner, |v, _| vec![d("..", v)]);
    let evil: Vec<RNode> = match i % 20 {
        0 => vec![f("..")],
        1 => ups(vec![d("..", vec![d("..", vec![d("..", vec![d("victim", vec![f("pwn1")])])])])]),
        2 => vec![f(&up(3, "victim/pwn2"))],
        3 => vec![f(&abs("pwn3"))],
        4 => vec![d(&abs("sub4"), vec![f("pwn4")])],
        5 => ups(vec![d("a", vec![d("..", vec![d("..", vec![d("..", vec![d("..", vec![d("victim", vec![f("keep.txt")])])])])])])]),
        6 => vec![f(&abs("keep.txt"))],
        7 => vec![d("x", vec![f(&up(4, "victim/pwn7"))])],
        8 => vec![f("")],
        9 => vec![f(".")],
        10 => vec![d("", vec![f("inner10")])],
        11 => vec![d(".", vec![f("inner11")])],
        12 => vec![f("a/b/c12")],
        13 => vec![f("/")],
        14 => vec![d(&up(3, "victim"), vec![d("deep", vec![f("pwn14")])])],
        15 => vec![d("ok", vec![f(&(up(4, "victim/") + "pwn15"))])],
        16 => vec![f(&format!("x/../../../../victim/pwn16"))],
        17 => vec![d("..", vec![f("pwn17"), d("..", vec![f("pwn17b"), d("..", vec![f("pwn17c")])])])],
        18 => vec![f("a\\..\\..\\b18")],
        _ => {
            // random composition
            let mut name = String::new();
            for _ in 0..rng.range(1, 6) {
                name += *rng.pick(&["..", "../", "/", "victim", "a", ".", "./", "keep.txt", "../victim/", "..."]);
            }
            let inner = vec![f(rng.pick(&["pwn19", "keep.txt", "..", "../x"]))];
            if rng.chance(1, 2) {
                vec![f(&name)]
            } else {
                vec![d(&name, inner)]
            }
        }
    };
    let evil = (0..deep).fold(evil, |v, k| vec![d(&format!("{}{k}", rng.pick(&["d", "x.y", "Dir"])), v)]);
    // somewhere in the tree
    fn place(rng: &mut Rng, t: &mut Vec<RNode>, evil: Vec<RNode>) {
        let at = rng.below(t.len() as u64 + 1) as usize;
        t.splice(at..at, evil);
    }
    let inside = if rng.chance(1, 4) { tree.iter().position(|n| matches!(n, RNode::Dir { .. })) } else { None };
    match inside.map(|k| &mut tree[k]) {
        Some(RNode::Dir { kids, .. }) => place(rng, kids, evil),
        _ => place(rng, &mut tree, evil),
    }
    let kind = rng.below(3) as u32;
    single(rng, kind, 1, tree)
}
