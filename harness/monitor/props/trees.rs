//! C10, C11: the file tree and its serialised form.

use crate::gen::{self, TreeParams};
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::runner::*;
use disc_riider::{Fst, FstNode, FstToBytes};
use std::io::{Cursor, Seek, SeekFrom, Write};

pub const C10: Prop = Prop {
    id: "C10",
    run: c10,
    quick: 1500000,
    thorough: 40000000,
    rule: "a case is one history of tree operations over a small pool of clashing names, compared after every step with a reference tree; distinct by history",
    need: &[("adds", 100_000), ("replacements", 5_000), ("refused adds", 5_000), ("finds", 50_000), ("removes", 20_000), ("visits", 50_000), ("renames", 5_000), ("node comparisons", 50_000), ("deep histories", 500), ("wide histories", 500)],
};

const POOL: &[&str] = &[
    "a", "A", "b", "B", "ab", "AB", "a.", "a0", "a_", "A~", "c", "C", "_", "[", "`", "z", "Z", "0", "@", "abc", "Abc", "ABD", "ソ", "ソa", "ソA",
    "é", "É",
];

fn cmp(a: &str, b: &str) -> std::cmp::Ordering {
    lower(a).cmp(&lower(b))
}

fn kids<'a>(t: &'a mut Vec<RNode>, path: &[String]) -> Option<&'a mut Vec<RNode>> {
    let mut cur = t;
    for p in path {
        match cur.iter_mut().find(|n| n.name() == p)? {
            RNode::Dir { kids, .. } => cur = kids,
            _ => return None,
        }
    }
    Some(cur)
}

fn model_find(t: &[RNode], path: &[String]) -> Option<RNode> {
    let (last, dirs) = path.split_last()?;
    let mut cur = t;
    for p in dirs {
        match cur.iter().find(|n| n.name() == p)? {
            RNode::Dir { kids, .. } => cur = kids,
            _ => return None,
        }
    }
    cur.iter().find(|n| n.name() == last).cloned()
}

/// reference semantics of adding (directories are in order)
fn model_add(t: &mut Vec<RNode>, path: &[String], node: RNode) -> Result<Option<RNode>, ()> {
    // refuse first: a component that exists as a file
    {
        let mut cur: &Vec<RNode> = t;
        for p in path {
            match cur.iter().find(|n| lower(n.name()) == lower(p)) {
                Some(RNode::File { .. }) => return Err(()),
                Some(RNode::Dir { kids, .. }) => cur = kids,
                None => break,
            }
        }
    }
    let mut cur = t;
    for p in path {
        let i = match cur.iter().position(|n| lower(n.name()) == lower(p)) {
            Some(i) => i,
            None => {
                let i = cur.iter().position(|n| lower(n.name()) > lower(p)).unwrap_or(cur.len());
                cur.insert(
                    i,
                    RNode::Dir {
                        name: p.clone(),
                        kids: vec![],
                    },
                );
                i
            }
        };
        match &mut cur[i] {
            RNode::Dir { kids, .. } => cur = kids,
            _ => unreachable!(),
        }
    }
    match cur.iter().position(|n| lower(n.name()) == lower(node.name())) {
        Some(i) => Ok(Some(std::mem::replace(&mut cur[i], node))),
        None => {
            let i = cur.iter().position(|n| lower(n.name()) > lower(node.name())).unwrap_or(cur.len());
            cur.insert(i, node);
            Ok(None)
        }
    }
}

fn rnode(n: &FstNode) -> RNode {
    from_nodes(std::slice::from_ref(n)).pop().unwrap()
}

fn fnode(n: &RNode) -> FstNode {
    to_fst_nodes(std::slice::from_ref(n)).pop().unwrap()
}

/// spelling of a path: plain, with leading/trailing/double slashes
fn spell(rng: &mut Rng, p: &[String]) -> String {
    match rng.below(4) {
        0 => format!("/{}", p.join("/")),
        1 => format!("{}/", p.join("//")),
        _ => p.join("/"),
    }
}

fn sort_model(t: &mut Vec<RNode>) {
    t.sort_by(|a, b| cmp(a.name(), b.name()));
    for n in t {
        if let RNode::Dir { kids, .. } = n {
            sort_model(kids)
        }
    }
}

fn c10(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let mut f = Fst::new();
    let mut m: Vec<RNode> = vec![];
    let mut sorted = true;
    let mut log: Vec<String> = vec![];
    let mut h = 0u64;
    let pool: Vec<String> = if rng.chance(1, 2) {
        POOL.iter().take(8).map(|s| s.to_string()).collect()
    } else if rng.chance(1, 2) {
        POOL.iter().map(|s| s.to_string()).collect()
    } else {
        (0..12).map(|_| gen::name(rng)).collect()
    };
    // shape: mostly shallow; sometimes everything below one long path, sometimes many siblings
    let shape = rng.below(12);
    let base: Vec<String> = match shape {
        0 => (0..rng.range(10, 70)).map(|_| rng.pick(&pool).clone()).collect(),
        1 | 2 => (0..rng.range(0, 2)).map(|_| rng.pick(&pool).clone()).collect(),
        _ => vec![],
    };
    let path = |rng: &mut Rng, max: u64| -> Vec<String> {
        let mut p = if rng.chance(5, 6) { base.clone() } else { vec![] };
        if shape == 0 && rng.chance(1, 4) {
            let k = rng.below(p.len() as u64 + 1) as usize;
            p.truncate(k);
        }
        let max = if shape == 1 || shape == 2 { 1 } else { max };
        p.extend((0..rng.range(0, max)).map(|_| rng.pick(&pool).clone()));
        p
    };
    if shape <= 2 {
        log.push(format!("fill {base:?}"));
        let n = if shape == 0 { rng.range(0, 3) } else { rng.range(6, 40) };
        for i in 0..n {
            let name = if rng.chance(1, 2) { rng.pick(&pool).clone() } else { format!("{}{i}", rng.pick(&pool)) };
            let node = RNode::File { name, off: i * 4, len: i as u32 };
            let want = model_add(&mut m, &base, node.clone());
            let got = f.add_node_iter(base.iter().map(|s| s.as_str()), fnode(&node)).map(|o| o.map(|n| rnode(&n)));
            if got != want {
                return Err(format!("add {node:?} in {base:?} returned {got:?}, expected {want:?}"));
            }
        }
        c.st.add(if shape == 0 { "deep histories" } else { "wide histories" }, 1);
    }
    macro_rules! bad {
        ($($a:tt)*) => { return Err(format!("{} after [{}]", format!($($a)*), log.join("; "))) };
    }
    for _ in 0..rng.range(3, 30) {
        let op = rng.below(16);
        match op {
            0..=6 => {
                if !sorted {
                    f.fix_ordering();
                    sort_model(&mut m);
                    sorted = true;
                }
                let p = path(rng, 3);
                let name = rng.pick(&pool).clone();
                let node = if rng.chance(1, 5) {
                    let mut k = vec![];
                    if rng.chance(1, 2) {
                        k.push(RNode::File {
                            name: "x".into(),
                            off: 4,
                            len: 9,
                        });
                    }
                    RNode::Dir { name, kids: k }
                } else {
                    RNode::File {
                        name,
                        off: rng.below(1 << 30) * 4,
                        len: rng.next() as u32,
                    }
                };
                log.push(format!("add {} in {p:?}", node.name()));
                let want = model_add(&mut m, &p, node.clone());
                let got = if rng.chance(1, 2) {
                    let s = spell(rng, &p);
                    f.add_node_path(&s, fnode(&node))
                } else {
                    f.add_node_iter(p.iter().map(|s| s.as_str()), fnode(&node))
                };
                let got = got.map(|o| o.map(|n| rnode(&n)));
                match &want {
                    Ok(Some(_)) => c.st.add("replacements", 1),
                    Err(()) => c.st.add("refused adds", 1),
                    _ => {}
                }
                if got != want {
                    bad!("add returned {got:?}, expected {want:?}");
                }
                c.st.add("adds", 1);
            }
            7 | 8 => {
                let mut p = path(rng, 3);
                if rng.chance(1, 2) {
                    let all = tree_nodes(&m);
                    if !all.is_empty() {
                        p = rng.pick(&all).0.clone();
                        if rng.chance(1, 6) {
                            // same letters, other case: not the same path
                            let k = p.len() - 1;
                            p[k] = p[k].to_ascii_uppercase();
                        }
                    }
                }
                let want = model_find(&m, &p);
                let s = spell(rng, &p);
                log.push(format!("find {s}"));
                let got = match rng.below(4) {
                    0 => f.find_node_path(&s).map(rnode),
                    1 => f.find_node_iter(p.iter().map(|s| s.as_str())).map(rnode),
                    2 => f.find_node_path_mut(&s).map(|n| rnode(n)),
                    _ => f.find_node_iter_mut(p.iter().map(|s| s.as_str())).map(|n| rnode(n)),
                };
                if got != want {
                    bad!("find {p:?} returned {got:?}, expected {want:?}");
                }
                c.st.add("finds", 1);
            }
            9 | 10 => {
                let mut p = path(rng, 3);
                if rng.chance(2, 3) {
                    let all = tree_nodes(&m);
                    if !all.is_empty() {
                        p = rng.pick(&all).0.clone();
                    }
                }
                if rng.chance(1, 8) {
                    p.push("x".into());
                }
                log.push(format!("remove {p:?}"));
                let want = model_find(&m, &p);
                if want.is_some() {
                    let (l, d) = p.split_last().unwrap();
                    let k = kids(&mut m, d).unwrap();
                    let i = k.iter().position(|n| n.name() == l).unwrap();
                    k.remove(i);
                }
                let got = if rng.chance(1, 2) {
                    let s = spell(rng, &p);
                    f.remove_node_path(&s)
                } else {
                    f.remove_node_iter(p.iter().map(|s| s.as_str()))
                };
                let got = got.map(|n| rnode(&n));
                if got != want {
                    bad!("remove {p:?} returned {got:?}, expected {want:?}");
                }
                c.st.add("removes", 1);
            }
            11 => {
                // rename through the mutable visit; names stay unique per directory
                log.push("rename visit".into());
                let suffix = rng.pick(&["~r", "!", "Q", "0"]).to_string();
                let which = rng.below(3);
                let style = rng.below(6);
                let new_name = |n: &str| -> String {
                    if which != 0 && hash_bytes(n.as_bytes()) % 2 == 1 {
                        return n.to_string();
                    }
                    let cut = n.char_indices().last().map_or(0, |c| c.0);
                    match style {
                        // longer in front, longer at the end
                        0 if n.len() < 40 => format!("{suffix}{n}"),
                        1 if n.len() < 40 => format!("{n}{suffix}"),
                        // shorter
                        2 if cut > 0 => n[..cut].to_string(),
                        // same length: other last character, other first character, other case
                        3 if cut > 0 => format!("{}{}", &n[..cut], if n.ends_with('Q') { '7' } else { 'Q' }),
                        4 if n.is_ascii() && !n.is_empty() => format!("{}{}", if n.starts_with('z') { 'y' } else { 'z' }, &n[1..]),
                        5 => n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                        _ => n.to_string(),
                    }
                };
                // would two siblings collide? then skip
                fn collide(t: &[RNode], nn: &dyn Fn(&str) -> String) -> bool {
                    let mut s = std::collections::HashSet::new();
                    t.iter().any(|n| !s.insert(lower(&nn(n.name()))))
                        || t.iter().any(|n| match n {
                            RNode::Dir { kids, .. } => collide(kids, nn),
                            _ => false,
                        })
                }
                if collide(&m, &new_name) {
                    continue;
                }
                let mut seen: Vec<(Vec<String>, bool)> = vec![];
                let r: Result<(), ()> = f.callback_all_files_mut(&mut |p, n| {
                    seen.push((p.clone(), n.is_dir()));
                    match n {
                        FstNode::File { name, offset, length } => {
                            *name = new_name(name);
                            *offset += 4;
                            *length ^= 1;
                        }
                        FstNode::Directory { name, .. } => *name = new_name(name),
                    }
                    Ok(())
                });
                // expected: ancestors already renamed, the node itself still under its old name
                fn walk(t: &mut Vec<RNode>, pre: &mut Vec<String>, nn: &dyn Fn(&str) -> String, out: &mut Vec<(Vec<String>, bool)>) {
                    for n in t {
                        let new = nn(n.name());
                        pre.push(n.name().to_string());
                        out.push((pre.clone(), matches!(n, RNode::Dir { .. })));
                        pre.pop();
                        pre.push(new.clone());
                        match n {
                            RNode::File { name, off, len } => {
                                *name = new;
                                *off += 4;
                                *len ^= 1;
                            }
                            RNode::Dir { name, kids } => {
                                *name = new;
                                walk(kids, pre, nn, out);
                            }
                        }
                        pre.pop();
                    }
                }
                let mut want = vec![];
                walk(&mut m, &mut vec![], &new_name, &mut want);
                if r.is_err() || seen != want {
                    bad!("renaming visit saw {seen:?}, expected {want:?}");
                }
                sorted = is_sorted(&m);
                c.st.add("renames", 1);
                c.st.add("visits", 1);
            }
            12 => {
                log.push("reorder".into());
                f.fix_ordering();
                sort_model(&mut m);
                sorted = true;
            }
            13 => {
                let stop = if rng.chance(1, 4) { Some(rng.below(5)) } else { None };
                log.push(format!("visit, stop {stop:?}"));
                let want = tree_nodes(&m);
                let mut seen = vec![];
                let r: Result<(), u64> = f.callback_all_files(&mut |p, n| {
                    seen.push((p.iter().map(|s| s.to_string()).collect::<Vec<_>>(), n.is_dir()));
                    match stop {
                        Some(s) if s + 1 == seen.len() as u64 => Err(7),
                        _ => Ok(()),
                    }
                });
                match stop {
                    Some(s) if (s as usize) < want.len() => {
                        if r != Err(7) || seen[..] != want[..s as usize + 1] {
                            bad!("visit stopped at {s} gave {r:?} after {} nodes", seen.len());
                        }
                    }
                    _ => {
                        if r.is_err() || seen != want {
                            bad!("visit saw {seen:?}, expected {want:?}");
                        }
                    }
                }
                c.st.add("visits", 1);
            }
            14 => {
                // edit one node in place through find
                let all = tree_files(&m);
                if all.is_empty() {
                    continue;
                }
                let (p, _, _) = rng.pick(&all).clone();
                log.push(format!("edit {p:?}"));
                let v = rng.next() as u32;
                match f.find_node_iter_mut(p.iter().map(|s| s.as_str())) {
                    Some(FstNode::File { length, .. }) => *length = v,
                    x => bad!("find for edit of {p:?} returned {x:?}"),
                }
                let (l, d) = p.split_last().unwrap();
                if let Some(RNode::File { len, .. }) = kids(&mut m, d).unwrap().iter_mut().find(|n| n.name() == l) {
                    *len = v;
                }
            }
            _ => {
                // shuffle a directory by hand, then reorder
                log.push("shuffle root".into());
                let seed = rng.next();
                Rng::new(seed).shuffle(f.get_entries_mut());
                Rng::new(seed).shuffle(&mut m);
                sorted = is_sorted(&m);
            }
        }
        h = mix(h ^ op);
        let now = from_fst(&f);
        if now != m {
            bad!("tree is {now:?}, expected {m:?}");
        }
    }
    // the nodes' own accessors and the order they define
    let es = f.get_entries();
    for (i, e) in es.iter().enumerate() {
        let is_dir = matches!(&m[i], RNode::Dir { .. });
        if e.get_name() != m[i].name() || e.is_dir() != is_dir || e.is_file() == is_dir {
            bad!("node {e:?} calls itself {:?}, directory {}, file {}", e.get_name(), e.is_dir(), e.is_file());
        }
        let o = &es[rng.below(es.len() as u64) as usize];
        if e.node_compare(o) != cmp(e.get_name(), o.get_name()) || e.node_compare(o) != o.node_compare(e).reverse() {
            bad!("{:?} compared with {:?} gives {:?}", e.get_name(), o.get_name(), e.node_compare(o));
        }
    }
    let (a, b) = (rng.pick(POOL).to_string(), rng.pick(POOL).to_string());
    let (fa, db) = (FstNode::create_file(a.clone()), FstNode::create_dir(b.clone()));
    let empty = FstNode::Directory { name: b.clone(), files: Vec::new() };
    if fa != (FstNode::File { name: a.clone(), offset: 0, length: 0 }) || db != empty || fa.node_compare(&db) != cmp(&a, &b) {
        bad!("fresh nodes {fa:?} and {db:?} compare as {:?}", fa.node_compare(&db));
    }
    c.st.add("node comparisons", 1 + es.len() as u64);
    c.st.distinct(h ^ hash_bytes(log.join(";").as_bytes()));
    c.st.sample(|| log.iter().take(8).cloned().collect::<Vec<_>>().join("; "));
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub const C11: Prop = Prop {
    id: "C11",
    run: c11,
    quick: 300000,
    thorough: 8000000,
    rule: "a case is one tree serialised by the library and parsed by the reference, and one serialised by the reference (several name-table layouts, any stream offset) and parsed by the library; some trees hold a name that cannot be represented; distinct by tree",
    need: &[("nodes written", 50_000), ("nodes read", 50_000), ("unrepresentable refused", 100), ("max_depth", 200), ("name table limits", 1)],
};

/// characters Shift-JIS either lacks or does not give back
pub const BAD_CHARS: &[char] = &['\u{a5}', '\u{203e}', '\u{2212}', '€', 'ü', '한', '\u{1F600}', '\0', '\u{80}', '\u{fffd}', '\u{feff}', 'ﬁ'];

pub fn bad_name(rng: &mut Rng) -> String {
    loop {
        let mut s: Vec<char> = gen::name(rng).chars().take(20).collect();
        if rng.chance(1, 6) {
            // long names too
            let n = rng.range(50, 140) as usize;
            s.resize(n, 'n');
        }
        let i = rng.below(s.len() as u64 + 1) as usize;
        s.insert(i, *rng.pick(BAD_CHARS));
        let s: String = s.into_iter().collect();
        if sjis(&s).is_none() {
            return s;
        }
    }
}

pub fn rename_some(rng: &mut Rng, t: &mut Vec<RNode>, name: &str) {
    // walk down at random
    let i = rng.below(t.len() as u64) as usize;
    match &mut t[i] {
        RNode::Dir { kids, .. } if !kids.is_empty() && rng.chance(2, 3) => rename_some(rng, kids, name),
        RNode::Dir { name: n, .. } | RNode::File { name: n, .. } => *n = name.to_string(),
    }
}

fn random_tree(c: &mut Case) -> Vec<RNode> {
    let rng = &mut c.rng;
    let mut t = match c.idx % 200 {
        0 => {
            let d = *rng.pick(&[100usize, 200, 250, 256, 257, 500, 1000, 1024]);
            gen::deep_tree(rng, d)
        }
        1 if c.idx < 2000 => {
            let n = rng.range(100, 5000) as usize;
            gen::wide_tree(rng, n, 20)
        }
        1 if c.idx < 8000 => {
            // node counts (with the root) around powers of two
            let n = (1u64 << rng.range(3, 13)) + rng.below(4) - 3;
            (0..n).map(|i| RNode::File { name: format!("{i:05}"), off: rng.below(1 << 30) << 2, len: rng.next() as u32 }).collect()
        }
        2 => vec![],
        3 => vec![RNode::Dir {
            name: "only".into(),
            kids: vec![],
        }],
        _ => gen::tree(
            rng,
            TreeParams {
                max_nodes: 60,
                max_depth: 8,
                sorted: false,
                allow_empty_dirs: true,
                fancy: true,
            },
        ),
    };
    let mut r = rng.fork();
    for_each_file_mut(&mut t, &mut |_, o, l| {
        *o = match r.below(4) {
            0 => 0,
            1 => r.below(1 << 20) * 4,
            2 => 0x3_FFFF_FFFC,
            _ => r.below(1 << 32) * 4,
        };
        *l = match r.below(4) {
            0 => 0,
            1 => u32::MAX,
            _ => r.next() as u32,
        };
    });
    t
}

fn c11(c: &mut Case) -> Res {
    if c.idx < 6 {
        c.st.add("name table limits", 1);
        return c11_limits(c);
    }
    // a few trees with more nodes than 16 bits can number
    let huge = c.idx < 8 || c.thorough && c.idx % 100_000 == 0;
    let mut t = if huge { gen::huge_tree(&mut c.rng) } else { random_tree(c) };
    let rng = &mut c.rng;
    if huge {
        c.st.add("trees of more than 65536 nodes", 1);
        for_each_file_mut(&mut t, &mut |_, o, l| {
            *o = rng.below(1 << 32) << 2;
            *l = rng.next() as u32;
        });
    }
    c.st.max("max_depth", tree_depth(&t) as u64);
    if !huge && !t.is_empty() && rng.chance(1, 10) {
        let n = bad_name(rng);
        rename_some(rng, &mut t, &n);
        if let Ok(b) = FstToBytes::try_from(to_fst(&t)) {
            let mut out = Cursor::new(vec![]);
            if b.write_to(&mut out).is_ok() {
                return Err(format!("a tree with the unrepresentable name {n:?} was converted"));
            }
        }
        c.st.add("unrepresentable refused", 1);
        return Ok(());
    }
    let n = tree_nodes(&t).len() as u64;
    // library writes, reference reads
    let fst = to_fst(&t);
    let b = FstToBytes::try_from(fst).map_err(|e| format!("representable tree refused: {e}"))?;
    let at = *rng.pick(&[0u64, 0, 12, 0x440, 777]);
    let mut out = Cursor::new(rng.bytes(at as usize));
    out.seek(SeekFrom::Start(at)).unwrap();
    b.write_to(&mut out).map_err(|e| format!("write_to: {e}"))?;
    let files = tree_files(&t).len();
    if b.get_total_file_count() != files {
        return Err(format!("file count {} instead of {files}", b.get_total_file_count()));
    }
    let bytes = out.into_inner();
    let (back, used) = fst_decode(&bytes[at as usize..]).map_err(|e| format!("written table is malformed: {e}"))?;
    if used > bytes.len() - at as usize {
        return Err("written table refers past its end".into());
    }
    if back != t {
        return Err(format!("written table decodes to {} instead of {}", brief(&back), brief(&t)));
    }
    c.st.add("nodes written", n);
    // library reads its own table
    let own = Fst::read(&mut Cursor::new(&bytes[..]), at).map_err(|e| format!("library cannot read its own table: {e}"))?;
    if from_fst(&own) != t {
        return Err("library reads another tree from its own table".into());
    }
    // reference writes, library reads
    let lay = NameLayout {
        reversed: rng.chance(1, 3),
        share: rng.chance(1, 3),
        lead_gap: rng.below(4) as usize,
        root_name_off: 0,
        dir_flag: 1,
    };
    let enc = fst_encode(&t, lay);
    let at = rng.below(3000);
    let mut s = Cursor::new(rng.bytes(at as usize));
    s.seek(SeekFrom::Start(at)).unwrap();
    s.write_all(&enc).unwrap();
    let tail = rng.below(20) as usize;
    let tb = rng.bytes(tail);
    s.write_all(&tb).unwrap();
    s.set_position(rng.below(50));
    let got = Fst::read(&mut s, at).map_err(|e| format!("well-formed table refused: {e} ({lay:?})"))?;
    if from_fst(&got) != t {
        return Err(format!("table read as {}, encodes {} ({lay:?})", brief(&from_fst(&got)), brief(&t)));
    }
    c.st.add("nodes read", n);
    if n > 0 {
        c.st.distinct(hash_bytes(&enc));
    }
    c.st.sample(|| format!("{n} nodes, depth {}, written at {at:#x}, {lay:?}", tree_depth(&t)));
    Ok(())
}

fn brief(t: &[RNode]) -> String {
    if tree_nodes(t).len() > 1000 {
        return format!("{} nodes", tree_nodes(t).len());
    }
    format!("{t:?}")
}

/// name bytes around the 24-bit limit of the format
fn c11_limits(c: &mut Case) -> Res {
    // total name bytes before the last name; the library may use a leading byte for the root
    let before: i64 = match c.idx {
        0 => 0xFF_FFFF - 1,
        1 => 0xFF_FFFF + 0x1000,
        2 => 0x1FF_FFFF,
        3 => 0xFF_FFFF + 2,
        4 => 0xFF_FFFF - 2,
        _ => 0x1FF_0000,
    };
    let mut left = before;
    let mut t = vec![];
    let mut i = 0;
    while left > 0 {
        let l = left.min(60_000);
        if l < 12 {
            // lengthen the previous name instead
            if let Some(RNode::File { name, .. }) = t.last_mut() {
                for _ in 0..l {
                    name.push('p');
                }
            }
            break;
        }
        let mut name = format!("n{i:07}");
        while (name.len() as i64) < l - 1 {
            name.push('x');
        }
        i += 1;
        left -= l;
        t.push(RNode::File {
            name,
            off: 4 * i as u64,
            len: i,
        });
    }
    t.push(RNode::File {
        name: "zlast".into(),
        off: 16,
        len: 5,
    });
    let fits = before + 1 <= 0xFF_FFFF;
    let r = FstToBytes::try_from(to_fst(&t)).map_err(|e| e.to_string()).and_then(|b| {
        let mut out = Cursor::new(vec![]);
        b.write_to(&mut out).map_err(|e| e.to_string())?;
        Ok(out.into_inner())
    });
    match r {
        Err(e) if fits => Err(format!("tree with {before:#x} name bytes refused: {e}")),
        Err(_) => Ok(()),
        Ok(b) => {
            let (back, _) = fst_decode(&b).map_err(|e| format!("{before:#x} name bytes: malformed table: {e}"))?;
            if back != t {
                return Err(format!("{before:#x} name bytes: the table holds other names than the tree"));
            }
            let own = Fst::read(&mut Cursor::new(&b[..]), 0).map_err(|e| format!("large table: {e}"))?;
            if from_fst(&own) != t {
                return Err("large table reads back differently".into());
            }
            Ok(())
        }
    }
}
