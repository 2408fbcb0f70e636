"""Planted changes: id -> property, what it needs, what it breaks, edits (file, old, new), demonstration.
gen_bugs.py turns these into seeded/<id>/; nothing in the checks reads either."""
PRE = '''#![allow(unused_imports, unstable_name_collisions)]
use binrw::BinReaderExt;
use demo::*;
use disc_riider::builder::*;
use disc_riider::structs::*;
use disc_riider::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::path::PathBuf;

fn main() {
    let scratch = PathBuf::from(std::env::args().nth(1).expect("scratch directory"));
    let _ = &scratch;
%s
    println!("ok");
}
'''
B = {}


def bug(id, prop, needs, breaks, edits, main=None, sh=None, extra=None):
    B[id] = dict(property=prop, needs=needs, what_it_breaks=breaks, edits=edits,
                 main=PRE % main if main else None, sh=sh, extra=extra or {})


RW, BU, FS, NR, ST, WI, DR, PY, CLI, LIB = ("src/reader_writer.rs", "src/builder.rs", "src/fst.rs", "src/new_reader.rs",
    "src/structs.rs", "src/window.rs", "src/dir_reader.rs", "disc-riider-py/src/lib.rs", "iso-tool/src/main.rs", "src/lib.rs")

bug("skip-reload-partial-group", "C01",
    "a name table that straddles a 2 MiB group boundary with at least one 31 KiB block, but less than a group, beyond it",
    "the final write of the file table reuses the previous group's buffer for the next group, so file data behind the table is overwritten",
    [(RW, "&& buf.len() >= GROUP_DATA_SIZE as usize)", "&& buf.len() >= BLOCK_DATA_SIZE as usize)")],
    '''
    let mut s = sys(1);
    // the names straddle the first group boundary, the node table does not
    let n = 1500;
    s.dol = dol(GRPD - 0x2440 - 0x320 - n * 12 - 60000, 3);
    let names: Vec<String> = (0..n).map(|i| format!("{i:05}{}", "x".repeat(85))).collect();
    let files: Vec<(&str, Vec<u8>)> = names.iter().enumerate().map(|(i, n)| (n.as_str(), fill(700, i as u32))).collect();
    write_dir(&scratch, &s, &files);
    let img = build_dir(&scratch);
    let got = read_all(&img, 0);
    for (n, d) in &files {
        check(got.get(*n) == Some(d), "file contents changed");
    }''')

bug("h3-only-for-new-groups", "C04",
    "a group other than the last one that is revisited and left again by a write (a file table straddling a group boundary)",
    "the H3 entry of a group that is written a second time keeps the hash of its first contents",
    [(RW, """                                    self.inner.h3.as_mut().map(|h3| {
                                        h3[20 * current_group as usize..][..20]
                                            .as_mut()
                                            .try_into()
                                            .unwrap()
                                    }),
                                    &self.inner.encryption_key,
                                );
                                self.file.seek""",
      """                                    self.inner
                                        .h3
                                        .as_mut()
                                        // groups below were hashed when they were completed
                                        .filter(|_| {
                                            current_group == 0
                                                || current_group >= self.inner.filled_groups
                                        })
                                        .map(|h3| {
                                            h3[20 * current_group as usize..][..20]
                                                .as_mut()
                                                .try_into()
                                                .unwrap()
                                        }),
                                    &self.inner.encryption_key,
                                );
                                self.file.seek""")],
    '''
    let mut s = sys(2);
    s.dol = dol(GRPD - 0x2440 - 0x320 - 3000, 3);
    let files: Vec<(String, Vec<u8>)> = (0..400).map(|i| (format!("file{i:04}.bin"), fill(9000, i))).collect();
    let mut f: Vec<(&str, Vec<u8>)> = files.iter().map(|(n, d)| (n.as_str(), d.clone())).collect();
    f.push(("zz", fill(3 * GRPD, 7)));
    write_dir(&scratch, &s, &f);
    let img = build_dir(&scratch);
    match check_hashes(&img, 0x50000) {
        Ok(g) => check(g >= 3, "groups"),
        Err(e) => check(false, &e),
    }''')

bug("padding-after-alignment", "C02",
    "a partition definition that asks for padding larger than the alignment slack",
    "the next file starts right behind the padding, not at a multiple of 64",
    [(BU, "let next_start = align_next(current_position + padding as u64, 0x40);",
      "let next_start = align_next(current_position, 0x40).max(current_position + padding as u64);")],
    '''
    let s = sys(3);
    let mut d = Def::new(&s, &[("a", fill(100, 1), 0), ("b", fill(70, 2), 1000), ("c", fill(5, 3), 0)]);
    let img = build_def(&mut d);
    for (n, (o, _)) in offsets(&img, 0) {
        check(o % 64 == 0, &format!("{n} at {o:#x} is not aligned"));
    }''')

bug("third-partition-offset", "C06",
    "three partitions on one builder, the last two of which together exceed what the second left room for",
    "from the third partition on, the start only accounts for the size of the partition before it, so partitions overlap",
    [(BU, "self.current_data_offset += 0x20000 /* encrypted data off */ + total_encrypted_size;",
      "self.current_data_offset = 0x50000 + 0x20000 /* encrypted data off */ + total_encrypted_size;")],
    '''
    let mut c = Cursor::new(Vec::new());
    let s = sys(4);
    let mut b = builder(&mut c, &s);
    let mut defs: Vec<Def> = (0..3).map(|i| Def::new(&sys(40 + i), &[("f", fill(1000 + i as usize, i), 0)])).collect();
    for d in defs.iter_mut() {
        add(&mut b, WiiPartType::Data, d).expect("add");
    }
    b.finish().expect("finish");
    drop(b);
    let img = c.into_inner();
    for (i, d) in defs.iter().enumerate() {
        let r = std::panic::catch_unwind(|| read_all(&img, i));
        check(matches!(r, Ok(m) if m["f"] == d.files["f"].0), &format!("partition {i} is damaged"));
    }''')

bug("final-flush-ignored", "C13",
    "a destination whose last flush fails",
    "the build reports success although the final flush failed",
    [(BU, """        self.file.flush()?;
        Ok(())""", """        // everything has been handed to the destination already
        let _ = self.file.flush();
        Ok(())""")],
    '''
    let s = sys(5);
    let mut d = Def::new(&s, &[("a", fill(100, 1), 0)]);
    let mut b = builder(Flaky::default(), &s);
    add(&mut b, WiiPartType::Data, &mut d).expect("add");
    b.finish().expect("finish");
    // the same with a destination that can't flush at the end
    struct LateFail(Flaky, std::rc::Rc<std::cell::Cell<bool>>);
    impl Read for LateFail { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
    impl Seek for LateFail { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
    impl Write for LateFail {
        fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.write(b) }
        fn flush(&mut self) -> io::Result<()> {
            if self.1.get() { Err(io::ErrorKind::Other.into()) } else { Ok(()) }
        }
    }
    let fail = std::rc::Rc::new(std::cell::Cell::new(false));
    let mut b = builder(LateFail(Flaky::default(), fail.clone()), &s);
    add(&mut b, WiiPartType::Data, &mut d).expect("add");
    fail.set(true);
    check(b.finish().is_err(), "finish succeeded although the destination could not be flushed");''')

bug("short-group-write", "C13",
    "a destination that accepts only part of the last group's 2 MiB write",
    "the rest of the last group is never written and the build still succeeds",
    [(RW, """                        self.file.write_all(self.inner.group_cache.as_ref())?;
                        self.inner.filled_groups = self.inner.filled_groups.max(current_group);
                        self.file.flush()?;""",
      """                        self.file.write(self.inner.group_cache.as_ref())?;
                        self.inner.filled_groups = self.inner.filled_groups.max(current_group);
                        self.file.flush()?;""")],
    '''
    let s = sys(6);
    let mut d = Def::new(&s, &[("a", fill(100, 1), 0)]);
    let want = build_def(&mut d);
    let mut f = Flaky { max_write: Some(0x12345), ..Default::default() };
    let mut b = builder(&mut f, &s);
    add(&mut b, WiiPartType::Data, &mut d).expect("add");
    b.finish().expect("finish");
    drop(b);
    check(f.inner.into_inner() == want, "short writes changed the image");''')

bug("publish-table-early", "C14",
    "a build that dies between writing the partition header and the hash table / TMD of a partition",
    "the partition table lists a partition before it is finished, and its header is complete before its hash table and TMD",
    [(BU, """        // write h3
        partition_window.seek(SeekFrom::Start(0x8000))?;
        partition_window.write_all(h3.as_ref())?;
        // write info to header
        part_header.global_hash_table_off = 0x8000.into();
        part_header.data_off = 0x20000.into();
        part_header.data_size = total_size.into();
""", """        // write info to header
        part_header.global_hash_table_off = 0x8000.into();
        part_header.data_off = 0x20000.into();
        part_header.data_size = total_size.into();
        partition_window.seek(SeekFrom::Start(0))?;
        partition_window.write_be(&part_header)?;
        // write h3
        partition_window.seek(SeekFrom::Start(0x8000))?;
        partition_window.write_all(h3.as_ref())?;
"""), (BU, """        // write partition header
        partition_window.seek(SeekFrom::Start(0))?;
        partition_window.write_be(&part_header)?;
        // only list""", """        // only list"""),
     (BU, """        progress_cb(0);
        let part_data_off = self.current_data_offset;
""", """        progress_cb(0);
        let part_data_off = self.current_data_offset;
        // reserve the table entry
        self.file
            .seek(SeekFrom::Start(0x40020 + 8 * self.partitions.len() as u64))?;
        self.file.write_be(&((part_data_off >> 2) as u32))?;
        self.file.write_be(&part_type)?;
        self.file.seek(SeekFrom::Start(0x40000))?;
        self.file.write_be(&(self.partitions.len() as u32 + 1))?;
        self.file.write_be(&(0x40020u32 >> 2))?;
        self.file.seek(SeekFrom::Start(0x4E000))?;
        self.file.write_all(&self.region)?;
""")],
    '''
    let s = sys(7);
    let mut d = Def::new(&s, &[("a", fill(100000, 1), 0)]);
    let mut f = Flaky { record: true, ..Default::default() };
    let mut b = builder(&mut f, &s);
    add(&mut b, WiiPartType::Data, &mut d).expect("add");
    b.finish().expect("finish");
    drop(b);
    // replay every prefix of the writes
    let mut img: Vec<u8> = vec![];
    for (pos, data) in &f.log {
        let end = *pos as usize + data.len();
        if img.len() < end {
            img.resize(end, 0);
        }
        img[*pos as usize..end].copy_from_slice(data);
        let Ok(mut r) = WiiIsoReader::open(Cursor::new(&img)) else { continue };
        let parts = r.partitions().to_vec();
        for p in parts {
            let off = p.get_offset() as usize;
            if r.open_partition(p).is_err() {
                continue;
            }
            if let Err(e) = check_hashes(&img, off) {
                check(false, &format!("an interrupted build shows a partition with wrong hashes: {e}"));
            }
        }
    }''')

bug("stale-group-after-failed-load", "C08",
    "a read error while loading another group, followed by a read in the group that was cached before",
    "the cache still claims to hold the old group although the failed load has overwritten part of it",
    [(NR, """        self.current_group = None;
        rs.seek""", """        rs.seek""")],
    '''
    let s = sys(8);
    let data = fill(3 * GRPD, 5);
    let mut d = Def::new(&s, &[("a", data.clone(), 0)]);
    let img = build_def(&mut d);
    let off = offsets(&img, 0)["a"].0;
    let mut r = WiiIsoReader::open(Flaky { inner: Cursor::new(img), ..Default::default() }).expect("open");
    let e = r.partitions()[0].clone();
    let mut p = r.open_partition(e).expect("partition");
    let mut v = vec![];
    p.get_crypto_reader(&mut r).read_into_vec(off, 1000, &mut v).expect("read");
    let next = r.file.reads + 1;
    r.file.fail_reads = vec![next];
    check(p.get_crypto_reader(&mut r).read_into_vec(off + 2 * GRPD as u64, 1000, &mut v).is_err(), "fault not reported");
    p.get_crypto_reader(&mut r).read_into_vec(off, 1000, &mut v).expect("read after the fault");
    check(v == data[..1000], "wrong bytes after a failed read");''')

bug("window-lazy-end-seek", "C09",
    "a read or write through the window before a seek relative to its end",
    "after the first access a seek from the end no longer moves the underlying stream",
    [(WI, """        match self.source.read(buf) {
            Ok(amt) => {
                self.pos += amt as u64;
""", """        match self.source.read(buf) {
            Ok(amt) => {
                self.needs_seek = false;
                self.pos += amt as u64;
"""),
     (WI, """            Ok(()) => {
                self.pos += buf.len() as u64;
""", """            Ok(()) => {
                self.needs_seek = false;
                self.pos += buf.len() as u64;
"""),
     (WI, """        match self.source.write(buf) {
            Ok(amt) => {
                self.pos += amt as u64;
""", """        match self.source.write(buf) {
            Ok(amt) => {
                self.needs_seek = false;
                self.pos += amt as u64;
"""),
     (WI, """            SeekFrom::End(off) => {
                if let Some(length) = self.length {
""", """            SeekFrom::End(off) => {
                if let Some(length) = self.length {
                    // the next access moves the source
                    if off <= 0 && off.unsigned_abs() <= length {
                        self.pos = length - off.unsigned_abs();
                        return Ok(self.pos);
                    }
""")],
    '''
    let data = fill(1000, 1);
    let mut c = Cursor::new(data.clone());
    let mut w = IOWindow::new(&mut c, 100, Some(500));
    let mut b = [0; 10];
    w.read_exact(&mut b).unwrap();
    check(b == data[100..110], "first read");
    check(w.seek(SeekFrom::End(-20)).unwrap() == 480, "position");
    w.read_exact(&mut b).unwrap();
    check(b == data[580..590], "read after a seek from the end");''')

bug("rename-same-length", "C10",
    "a rename of a directory through the visiting callback to a name of the same length",
    "the children of a renamed directory are reported under its old name",
    [(FS, "if saved_name != node.get_name() {", "if saved_name.len() != node.get_name().len() {")],
    '''
    let mut f = Fst::new();
    f.add_node_path("aaa/bbb", FstNode::create_file("c".into())).unwrap();
    f.add_node_path("aaa", FstNode::create_file("d".into())).unwrap();
    let mut seen = vec![];
    f.callback_all_files_mut::<(), _>(&mut |p, n| {
        seen.push(p.join("/"));
        if let FstNode::Directory { name, .. } = n {
            if name == "aaa" {
                *name = "xyz".into();
            }
        }
        Ok(())
    })
    .unwrap();
    check(seen == ["aaa", "xyz/bbb", "xyz/bbb/c", "xyz/d"], &format!("{seen:?}"));''')

bug("nested-remove-ignores-case", "C10",
    "removing a nested path whose last component differs from an existing entry only in letter case",
    "an entry with another exact name is removed",
    [(FS, "let idx = files.iter().position(|n| n.get_name() == cur_part)?;",
      "let idx = files\n                        .iter()\n                        .position(|n| n.get_name().eq_ignore_ascii_case(cur_part))?;")],
    '''
    let mut f = Fst::new();
    f.add_node_path("dir", FstNode::create_file("Name".into())).unwrap();
    check(f.remove_node_path("dir/name").is_none(), "removed an entry with another name");
    check(f.find_node_path("dir/Name").is_some(), "entry is gone");''')

bug("fst-offset-32bit", "C11",
    "a file stored at or beyond 4 GiB",
    "the upper bits of the offset are lost when the table is written",
    [(FS, "offset: (offset >> 2) as u32,", "offset: offset as u32 >> 2,")],
    '''
    let mut f = Fst::new();
    f.get_entries_mut().push(FstNode::File { name: "a".into(), offset: 0x1_2345_6780, length: 5 });
    let mut c = Cursor::new(Vec::new());
    FstToBytes::try_from(f.clone()).unwrap().write_to(&mut c).unwrap();
    let g = Fst::read(&mut c, 0).unwrap();
    check(f.get_entries() == g.get_entries(), &format!("{:?}", g.get_entries()));''')

bug("bounded-fakesign-search", "C05",
    "a TMD for which none of the first 256 counter values gives a hash starting with zero (more than a third of all builds)",
    "the stored TMD is not fake-signed",
    [(BU, "for i in 0..u64::MAX {", "for i in 0..=u8::MAX as u64 {")],
    '''
    for i in 0..25 {
        let s = sys(100 + i);
        let mut d = Def::new(&s, &[("a", fill(100, i), 0)]);
        let img = build_def(&mut d);
        let p = &img[0x50000..];
        let (o, n) = ((be32(p, 0x2A8) as usize) << 2, be32(p, 0x2A4) as usize);
        check(sha(&p[o + 0x140..o + n])[0] == 0, &format!("build {i} is not fake-signed"));
    }''')

bug("partition-table-reserve", "C12",
    "an image whose partition table claims a huge number of entries",
    "memory for all claimed entries is reserved up front, which aborts the process",
    [(ST, "            r.seek(SeekFrom::Start(offset))?;\n            for _ in 0..part_count {",
      "            r.seek(SeekFrom::Start(offset))?;\n            parts.reserve(part_count as usize);\n            for _ in 0..part_count {")],
    '''
    let mut img = vec![0u8; 0x50000];
    img[0x40000..0x40004].copy_from_slice(&0xFFFF_FFF0u32.to_be_bytes());
    img[0x40004..0x40008].copy_from_slice(&(0x40020u32 >> 2).to_be_bytes());
    struct Count;
    static PEAK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    unsafe impl std::alloc::GlobalAlloc for Count {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            PEAK.fetch_max(l.size(), std::sync::atomic::Ordering::Relaxed);
            if l.size() > 1 << 30 { return std::ptr::null_mut(); }
            std::alloc::System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    }
    #[global_allocator]
    static A: Count = Count;
    check(WiiIsoReader::open(Cursor::new(&img)).is_err(), "opened");
    check(PEAK.load(std::sync::atomic::Ordering::Relaxed) < 1 << 28, "reserved memory for claimed entries");''')

bug("progress-rounds-up", "C16",
    "a build in which the files before the last one hold more than 99.5% of all bytes",
    "progress reports 100 while file data is still missing",
    [(BU, "((processed_file_bytes as f64) / (total_bytes as f64) * 100f64) as u8;",
      "((processed_file_bytes as f64) / (total_bytes as f64) * 100f64).round() as u8;")],
    '''
    write_dir(&scratch, &sys(9), &[("a", fill(100_000, 1)), ("b", fill(10, 2))]);
    let mut seen = vec![];
    build_from_directory(&scratch, &mut Cursor::new(Vec::new()), &mut |p| seen.push(p)).unwrap();
    check(seen == [0, 99, 100], &format!("{seen:?}"));''')

bug("extract-keeps-old-tail", "C17",
    "extracting over an older extraction in which a file was longer",
    "the end of the older, longer file stays behind the new contents",
    [(PY, "let mut outfile = fs::File::create(&filepath)?;",
      "let mut outfile = OpenOptions::new()\n                            .write(true)\n                            .create(true)\n                            .truncate(false)\n                            .open(&filepath)?;")],
    sh='''
"$t/target/release/demo" "$t/work" || exit 3
python3.12 "$here/extract.py" /repo/target/debug/libdisc_riider_py.so "$t/work"
''', main='''
    let s = sys(10);
    let mut d = Def::new(&s, &[("a.bin", fill(100, 1), 0), ("d/b.bin", fill(100000, 2), 0)]);
    std::fs::write(scratch.join("img.iso"), build_def(&mut d)).unwrap();
    std::fs::write(scratch.join("a.bin"), fill(100, 1)).unwrap();
    std::fs::write(scratch.join("b.bin"), fill(100000, 2)).unwrap();''',
    extra={"extract.py": '''import os, shutil, sys
so, work = sys.argv[1:]
shutil.copy(so, work + "/disc_riider_py.so")
sys.path.insert(0, work)
import disc_riider_py
rd = lambda p: open(work + "/" + p, "rb").read()
os.makedirs(work + "/out/DATA/files/d")
open(work + "/out/DATA/files/a.bin", "wb").write(b"x" * 500)
open(work + "/out/DATA/files/d/b.bin", "wb").write(b"y" * 20)
e = disc_riider_py.WiiIsoExtractor(work + "/img.iso")
e.prepare_extract_section("data")
e.extract_to(work + "/out", lambda p: None)
ok = rd("out/DATA/files/a.bin") == rd("a.bin") and rd("out/DATA/files/d/b.bin") == rd("b.bin")
print("ok" if ok else "FAIL: extracted contents differ")
sys.exit(0 if ok else 1)
'''})

bug("filter-needs-bool", "C19",
    "a filter callback that returns a true value that is not a bool",
    "files selected by such a value are not removed",
    [(PY, "callback.call1(py, (path,)).and_then(|obj| obj.is_truthy(py))",
      "callback.call1(py, (path,)).and_then(|obj| obj.extract::<bool>(py))")],
    sh='''
"$t/target/release/demo" "$t/work" || exit 3
python3.12 "$here/filter.py" /repo/target/debug/libdisc_riider_py.so "$t/work"
''', main='''
    let s = sys(11);
    let mut d = Def::new(&s, &[("a.bin", fill(100, 1), 0), ("d/b.bin", fill(1000, 2), 0)]);
    std::fs::write(scratch.join("img.iso"), build_def(&mut d)).unwrap();''',
    extra={"filter.py": '''import os, re, shutil, sys
so, work = sys.argv[1:]
shutil.copy(so, work + "/disc_riider_py.so")
sys.path.insert(0, work)
import disc_riider_py
e = disc_riider_py.WiiIsoExtractor(work + "/img.iso")
e.prepare_extract_section("DATA")
e.remove_files_by_callback("DATA", lambda p: re.match("d/.*", p))
e.extract_to(work + "/out", lambda p: None)
ok = os.path.exists(work + "/out/DATA/files/a.bin") and not os.path.exists(work + "/out/DATA/files/d/b.bin")
print("ok" if ok else "FAIL: wrong set of files extracted")
sys.exit(0 if ok else 1)
'''})

bug("cli-missing-section-ok", "C20",
    "print-files for a section the image does not have",
    "the tool exits with status 0 although the requested section is absent",
    [(CLI, """                .cloned()
                .ok_or_else(|| MyError::SectionNotFound(part_type))?;
            let part_reader = reader.open_partition(partition)?;
            part_reader.get_fst().print_tree();""",
      """                .cloned();
            let Some(partition) = partition else {
                eprintln!("{}", MyError::SectionNotFound(part_type));
                return Ok(());
            };
            let part_reader = reader.open_partition(partition)?;
            part_reader.get_fst().print_tree();""")],
    sh='''
"$t/target/release/demo" "$t/work" || exit 3
T=/repo/target/debug/iso-tool
"$T" print-files img.iso > out || { echo "FAIL: existing section"; exit 1; }
grep -q a.bin out || exit 1
if "$T" print-files img.iso --section update; then echo "FAIL: missing section reported as success"; exit 1; fi
exit 0
''', main='''
    let s = sys(12);
    let mut d = Def::new(&s, &[("a.bin", fill(100, 1), 0)]);
    std::fs::write(scratch.join("img.iso"), build_def(&mut d)).unwrap();''')

bug("ec-signature-60-bytes", "C21",
    "a certificate with an elliptic-curve signature",
    "the signature is read as 60 bytes, shifting every later field",
    [(ST, "else if sig_type == SigType::EllipticalCurve { 64 } else { 0 })]",
      "else if sig_type == SigType::EllipticalCurve { 60 } else { 0 })]")],
    '''
    let b = cert(0x10002, 64, 5);
    let c: Certificate = Cursor::new(&b).read_be().expect("certificate with an elliptic-curve signature");
    check(c.issuer == b[4 + 64 + 60..][..64], "issuer");
    let mut o = Cursor::new(Vec::new());
    binrw::BinWriterExt::write_be(&mut o, &c).unwrap();
    check(o.into_inner() == b, "written certificate differs");''')

bug("partitions-sorted", "C22",
    "an image whose partition table is not in offset order",
    "partitions are listed by offset, not in table order",
    [(ST, "    Ok(parts)\n", "    parts.sort_by_key(|p| p.get_offset());\n    Ok(parts)\n")],
    '''
    let mut img = vec![0u8; 0x50000];
    img[0x40000..0x40004].copy_from_slice(&2u32.to_be_bytes());
    img[0x40004..0x40008].copy_from_slice(&(0x40020u32 >> 2).to_be_bytes());
    for (i, (o, k)) in [(0x900000u32, 0u32), (0x50000, 1)].iter().enumerate() {
        img[0x40020 + i * 8..][..4].copy_from_slice(&(o >> 2).to_be_bytes());
        img[0x40024 + i * 8..][..4].copy_from_slice(&k.to_be_bytes());
    }
    let r = WiiIsoReader::open(Cursor::new(&img)).expect("open");
    let l: Vec<u64> = r.partitions().iter().map(|p| p.get_offset()).collect();
    check(l == [0x900000, 0x50000], &format!("{l:x?}"));''')

bug("shifted-offset-32bit", "C22",
    "a partition (or data area) beyond 4 GiB",
    "offsets of 4 GiB and more lose their upper bits when read",
    [(LIB, "#[br(map = | x: u32 | (x as u64) << 2)]", "#[br(map = | x: u32 | (x << 2) as u64)]")],
    '''
    let mut img = vec![0u8; 0x50000];
    img[0x40000..0x40004].copy_from_slice(&1u32.to_be_bytes());
    img[0x40004..0x40008].copy_from_slice(&(0x40020u32 >> 2).to_be_bytes());
    img[0x40020..0x40024].copy_from_slice(&0x4000_0000u32.to_be_bytes());
    let r = WiiIsoReader::open(Cursor::new(&img)).expect("open");
    check(r.partitions()[0].get_offset() == 1 << 32, &format!("{:x}", r.partitions()[0].get_offset()));''')

bug("case-duplicates-replace", "C23",
    "two files in one directory whose names differ only in letter case",
    "one of the two files is silently dropped from the image",
    [(DR, """            if !matches!(
                fst.add_node_iter(""", """            if matches!(
                fst.add_node_iter("""), (DR, "                Ok(None)\n", "                Err(_)\n")],
    '''
    write_dir(&scratch, &sys(13), &[("d/File", fill(10, 1)), ("d/FILE", fill(20, 2))]);
    let r = build_from_directory(&scratch, &mut Cursor::new(Vec::new()), &mut |_| ());
    check(r.is_err(), "built an image although two names collide");''')

bug("copy-uses-partition-header", "C24",
    "an image whose disc header differs from the data partition's header",
    "the copy carries the partition's header as its disc header",
    [(BU, """    let mut reader = WiiIsoReader::open(f)?;
    let mut builder = WiiDiscBuilder::create(""", """    let mut reader = WiiIsoReader::open(f)?;
    let first = reader.partitions()[0].clone();
    let disc_header = reader.open_partition(first)?.get_encrypted_header().clone();
    let mut builder = WiiDiscBuilder::create("""),
     (BU, "        reader.get_header().clone(),\n", "        disc_header,\n")],
    '''
    let s = sys(14);
    let mut other = s.clone();
    other.header[..6].copy_from_slice(b"OTHER2");
    let mut d = Def::new(&s, &[("THP/Demo1", fill(100, 1), 0), ("THP/x", fill(9, 1), 0), ("a", fill(7, 1), 0)]);
    let mut c = Cursor::new(Vec::new());
    let mut b = builder(&mut c, &other);
    add(&mut b, WiiPartType::Data, &mut d).expect("add");
    b.finish().expect("finish");
    drop(b);
    let img = c.into_inner();
    std::fs::write(scratch.join("src"), &img).unwrap();
    std::fs::write(scratch.join("dst"), b"").unwrap();
    build_copy(&scratch.join("src"), &scratch.join("dst")).expect("copy");
    let got = std::fs::read(scratch.join("dst")).unwrap();
    check(got[..6] == img[..6], "disc header differs");
    let f = read_all(&got, 0);
    check(f.len() == 2 && f["THP/Demo1"] == fill(100, 1), "files differ");''')

bug("partition-flags-cleared", "C03",
    "a boot.bin with the encryption or hash-verification disable flag set",
    "the partition's own header loses the flags that only the disc header must clear",
    [(BU, """        let header = try_open(path)?.read_be::<DiscHeader>()?;
        Ok(header)""", """        let mut header = try_open(path)?.read_be::<DiscHeader>()?;
        header.disable_disc_enc = 0;
        header.disable_hash_verification = 0;
        Ok(header)""")],
    '''
    let mut s = sys(15);
    s.header[0x60] = 1;
    s.header[0x61] = 1;
    write_dir(&scratch, &s, &[("a", fill(10, 1))]);
    let img = build_dir(&scratch);
    let mut r = WiiIsoReader::open(Cursor::new(&img)).unwrap();
    check(r.get_header().disable_disc_enc == 0, "disc header");
    let e = r.partitions()[0].clone();
    let p = r.open_partition(e).unwrap();
    let h = p.get_encrypted_header();
    check(h.disable_disc_enc == 1 && h.disable_hash_verification == 1, "flags of the partition header lost");''')

bug("positioned-read-moves", "C07",
    "a positioned read between two sequential reads",
    "the positioned read moves the sequential position",
    [(NR, """            offset += count_to_copy;
            offset_in_block_data = 0;
            block += 1;
            if block == 64 {
                block = 0;
                group += 1;
            }
        }
        Ok(())""", """            offset += count_to_copy;
            self.current_position = offset;
            offset_in_block_data = 0;
            block += 1;
            if block == 64 {
                block = 0;
                group += 1;
            }
        }
        Ok(())""")],
    '''
    let s = sys(16);
    let data = fill(100000, 5);
    let img = build_def(&mut Def::new(&s, &[("a", data.clone(), 0)]));
    let off = offsets(&img, 0)["a"].0;
    let mut r = WiiIsoReader::open(Cursor::new(img)).expect("open");
    let e = r.partitions()[0].clone();
    let mut p = r.open_partition(e).expect("partition");
    let mut c = p.get_crypto_reader(&mut r);
    c.seek(SeekFrom::Start(off)).unwrap();
    let mut b = [0; 16];
    c.read_exact(&mut b).unwrap();
    let mut v = vec![];
    c.read_into_vec(off + 5000, 300, &mut v).unwrap();
    c.read_exact(&mut b).unwrap();
    check(v == data[5000..5300], "positioned read");
    check(b == data[16..32], "sequential read after a positioned read");''')

bug("enumeration-order-build", "C15",
    "a directory whose entries the file system enumerates in another order than a copy of it",
    "names that share their first eight bytes are stored in enumeration order, so equal directories give different images",
    [(FS, """            Err(pos) => {
            // new file, vec is still sorted
            dir_node_files.insert(pos, new_node);
            Ok(None)
        }""".replace("            Err(pos)", "        Err(pos)", 1), """        Err(pos) => {
            // names with a long common prefix sort next to each other
            let prefix = |n: &FstNode| n.get_name().as_bytes().get(..8).map(<[u8]>::to_vec);
            let same = dir_node_files.get(pos).map_or(false, |n| {
                prefix(n).is_some() && prefix(n) == prefix(&new_node)
            });
            dir_node_files.insert(if same { pos + 1 } else { pos }, new_node);
            Ok(None)
        }""")],
    '''
    let (a, b) = (scratch.join("a"), scratch.join("b"));
    let names = ["d/longname1", "d/longname2", "d/longname3", "d/x"];
    let f: Vec<(&str, Vec<u8>)> = names.iter().enumerate().map(|(i, n)| (*n, fill(10, i as u32))).collect();
    // what the library relies on: adding in any order gives the same tree
    let tree = |order: &[usize]| {
        let mut t = Fst::new();
        for i in order {
            t.add_node_path("d", FstNode::create_file(names[*i][2..].into())).unwrap();
        }
        t.get_entries().clone()
    };
    check(tree(&[0, 1, 2, 3]) == tree(&[3, 2, 1, 0]), "the order of insertion shows in the tree");
    write_dir(&a, &sys(17), &f);
    let mut g = f.clone();
    g.reverse();
    write_dir(&b, &sys(17), &g);
    check(build_dir(&a) == build_dir(&b), "equal directories give different images");''')

PYDEMO = '''import os, shutil, sys
so, work = sys.argv[1:]
shutil.copy(so, work + "/disc_riider_py.so")
sys.path.insert(0, work)
import disc_riider_py
'''
PYSH = '''
"$t/target/release/demo" "$t/work" || exit 3
python3.12 "$here/run.py" /repo/target/debug/libdisc_riider_py.so "$t/work"
'''

bug("extract-creates-directories", "C18",
    "an image with a directory whose name leads out of the destination",
    "directories named by the image are created outside the destination before the names of the files in them are checked",
    [(PY, "                    if let FstNode::File { offset, length, .. } = node {\n                        let mut filepath",
      "                    if node.is_dir() {\n                        // keep empty directories as well\n                        create_dir_all(section_path.join(\"files\").join(names.join(\"/\")))?;\n                    }\n                    if let FstNode::File { offset, length, .. } = node {\n                        let mut filepath")],
    sh=PYSH, main='''
    let s = sys(18);
    let mut d = Def::new(&s, &[("a", fill(100, 1), 0)]);
    let img = build_def(&mut d);
    // the same tree with a directory called ../../../escaped, as a definition can supply it
    let mut d = Def::new(&s, &[("a", fill(100, 1), 0)]);
    d.fst.get_entries_mut().push(FstNode::create_dir("../../../escaped".into()));
    let evil = build_def(&mut d);
    std::fs::write(scratch.join("good.iso"), img).unwrap();
    std::fs::write(scratch.join("evil.iso"), evil).unwrap();''',
    extra={"run.py": PYDEMO + '''for n in ("good", "evil"):
    e = disc_riider_py.WiiIsoExtractor(f"{work}/{n}.iso")
    e.prepare_extract_section("data")
    try:
        e.extract_to(f"{work}/{n}/dest", lambda p: None)
        ok = os.path.getsize(f"{work}/{n}/dest/DATA/files/a") == 100
    except Exception as x:
        ok = n == "evil"
    if not ok or os.listdir(f"{work}/{n}") != ["dest"]:
        print("FAIL:", n, os.listdir(f"{work}/{n}"))
        sys.exit(1)
print("ok")
'''})

bug("rebuild-keeps-old-target", "C17",
    "rebuilding through the Python module into a file that held something longer",
    "what the target file held between and behind the written parts stays in the new image",
    [(PY, "        .truncate(true)\n", "        .truncate(false)\n")],
    sh=PYSH, main='''
    write_dir(&scratch.join("src"), &sys(19), &[("a", fill(100, 1)), ("d/b", fill(70000, 2))]);''',
    extra={"run.py": PYDEMO + '''disc_riider_py.rebuild_from_directory(work + "/src", work + "/fresh.iso", lambda p: None)
fresh = open(work + "/fresh.iso", "rb").read()
with open(work + "/old.iso", "wb") as f:
    f.write(b"x" * (len(fresh) + 1000))
disc_riider_py.rebuild_from_directory(work + "/src", work + "/old.iso", lambda p: None)
ok = open(work + "/old.iso", "rb").read() == fresh
print("ok" if ok else "FAIL: images differ")
sys.exit(0 if ok else 1)
'''})

bug("cli-offset-32bit", "C20",
    "an image with a partition at or beyond 4 GiB",
    "the listed offset loses its upper bits",
    [(CLI, "partition.get_offset());", "partition.get_offset() as u32);")],
    sh='''
"$t/target/release/demo" "$t/work" || exit 3
/repo/target/debug/iso-tool sections img.iso > out || exit 1
cat out
grep -qi '100000008$' out || { echo "FAIL: offset"; exit 1; }
''', main='''
    let mut img = vec![0u8; 0x50000];
    img[0x18..0x1c].copy_from_slice(&0x5D1C9EA3u32.to_be_bytes());
    img[0x40000..0x40004].copy_from_slice(&1u32.to_be_bytes());
    img[0x40004..0x40008].copy_from_slice(&(0x40020u32 >> 2).to_be_bytes());
    img[0x40020..0x40024].copy_from_slice(&0x4000_0002u32.to_be_bytes());
    std::fs::write(scratch.join("img.iso"), img).unwrap();''')

bug("progress-single-precision", "C16",
    "a last file that is less than one part in 30 million of all data",
    "100 percent is reported before the last file is supplied",
    [(BU, "((processed_file_bytes as f64) / (total_bytes as f64) * 100f64) as u8",
      "((processed_file_bytes as f32) / (total_bytes as f32) * 100f32) as u8")],
    '''
    use std::cell::Cell;
    let s = sys(20);
    write_dir(&scratch, &s, &[("a", vec![7; 120 << 20]), ("b", vec![1; 1]), ("c", vec![2; 60 << 20]), ("z", vec![1; 1])]);
    // after 100 nothing may follow but 100 at the very end: z is one more batch
    let n = Cell::new(0);
    let hundreds = Cell::new(0);
    build_from_directory(&scratch, &mut Cursor::new(Vec::new()), &mut |p| {
        n.set(n.get() + 1);
        if p >= 100 {
            hundreds.set(hundreds.get() + 1);
        }
    }).expect("build");
    check(n.get() > 10 && hundreds.get() == 1, &format!("100 percent reported {} times", hundreds.get()));''')

bug("skip-finder-files", "C01",
    "a source file whose name is one some operating systems create themselves",
    "the file is left out of the image",
    [(DR, "        let path = entry.path();\n", "        if filename == \".DS_Store\" || filename.eq_ignore_ascii_case(\"thumbs.db\") {\n            // left behind by file managers\n            continue;\n        }\n        let path = entry.path();\n")],
    '''
    write_dir(&scratch, &sys(21), &[("a", fill(10, 1)), ("d/Thumbs.db", fill(20, 2))]);
    let got = read_all(&build_dir(&scratch), 0);
    check(got.len() == 2 && got["d/Thumbs.db"] == fill(20, 2), "files differ");''')

bug("vanished-file-empty", "C23",
    "a file that disappears between the scan of the directory and the copying of its data",
    "the image is built with an empty file in its place",
    [(BU, "        let mut f = try_open(fs_path)?;\n        f.read_to_end(&mut self.buf)?;\n        Ok((Cow::Borrowed(&self.buf), 0))",
      "        if let Ok(mut f) = try_open(fs_path) {\n            f.read_to_end(&mut self.buf)?;\n        }\n        Ok((Cow::Borrowed(&self.buf), 0))")],
    '''
    write_dir(&scratch, &sys(22), &[("a", fill(10, 1)), ("b", fill(20, 2))]);
    build_dir(&scratch);
    let gone = scratch.join("DATA/files/b");
    let r = build_from_directory(&scratch, &mut Cursor::new(Vec::new()), &mut |_| {
        let _ = std::fs::remove_file(&gone);
    });
    check(r.is_err(), "built an image although a file disappeared");''')

bug("eighth-partition-dropped", "C06",
    "more partitions than fit a small table",
    "partitions after the eighth are written but not listed",
    [(BU, "        self.file.write_be(&(self.partitions.len() as u32))?;\n", "        self.file.write_be(&(self.partitions.len().min(8) as u32))?;\n"),
     (BU, "        for partition in self.partitions.iter() {\n", "        for partition in self.partitions.iter().take(8) {\n")],
    '''
    let s = sys(23);
    let mut c = Cursor::new(Vec::new());
    let mut b = builder(&mut c, &s);
    for i in 0..9 {
        add(&mut b, WiiPartType::Update, &mut Def::new(&s, &[("a", fill(10, i), 0)])).expect("add");
    }
    b.finish().expect("finish");
    drop(b);
    let r = WiiIsoReader::open(c).expect("open");
    check(r.partitions().len() == 9, &format!("{} partitions", r.partitions().len()));''')

bug("copy-keeps-old-tail", "C24",
    "copying over an older image that was larger",
    "the end of the older image stays behind the copy",
    [(BU, """            .truncate(true)
            .read(true)
            .write(true)
            .open(dest)?,""", """            .read(true)
            .write(true)
            .open(dest)?,""")],
    '''
    let s = sys(31);
    let mut d = Def::new(&s, &[("THP/Demo1", fill(100, 1), 0), ("THP/x", fill(9, 1), 0), ("a", fill(7, 1), 0)]);
    std::fs::write(scratch.join("src"), build_def(&mut d)).unwrap();
    std::fs::write(scratch.join("fresh"), b"").unwrap();
    std::fs::write(scratch.join("old"), fill(9_000_000, 5)).unwrap();
    build_copy(&scratch.join("src"), &scratch.join("fresh")).expect("copy");
    build_copy(&scratch.join("src"), &scratch.join("old")).expect("copy");
    let (a, b) = (std::fs::read(scratch.join("fresh")).unwrap(), std::fs::read(scratch.join("old")).unwrap());
    check(a.len() == b.len(), &format!("{} bytes instead of {}", b.len(), a.len()));''')

bug("finish-forgets-partitions", "C06",
    "an image that is finished, gets another partition and is finished again",
    "the second table lists only the partitions added after the first finish",
    [(BU, "        for partition in self.partitions.iter() {\n            self.file.write_be(partition)?;\n",
      "        for partition in std::mem::take(&mut self.partitions) {\n            self.file.write_be(&partition)?;\n")],
    '''
    let s = sys(32);
    let mut c = Cursor::new(Vec::new());
    let mut b = builder(&mut c, &s);
    add(&mut b, WiiPartType::Update, &mut Def::new(&s, &[("a", fill(10, 1), 0)])).expect("add");
    b.finish().expect("finish");
    add(&mut b, WiiPartType::Data, &mut Def::new(&s, &[("b", fill(10, 2), 0)])).expect("add");
    b.finish().expect("finish");
    drop(b);
    let r = WiiIsoReader::open(c).expect("open");
    check(r.partitions().len() == 2, &format!("{} partitions", r.partitions().len()));''')

bug("progress-total-accumulates", "C17",
    "extracting two sections in one go",
    "the progress of the second section is measured against the bytes of both and never reaches 100",
    [(PY, "        for mut partition in self.sections_to_extract.drain(..) {\n",
      "        let mut total_bytes = 0usize;\n        for mut partition in self.sections_to_extract.drain(..) {\n"),
     (PY, "            // count files\n            let mut total_bytes = 0usize;\n", "            // count files\n")],
    sh='''
"$t/target/release/demo" "$t/work" || exit 3
python3.12 "$here/extract.py" /repo/target/debug/libdisc_riider_py.so "$t/work"
''', main='''
    let s = sys(33);
    let mut c = Cursor::new(Vec::new());
    let mut b = builder(&mut c, &s);
    add(&mut b, WiiPartType::Update, &mut Def::new(&s, &[("a", fill(50000, 1), 0)])).expect("add");
    add(&mut b, WiiPartType::Data, &mut Def::new(&s, &[("b", fill(100000, 2), 0)])).expect("add");
    b.finish().expect("finish");
    drop(b);
    std::fs::write(scratch.join("img.iso"), c.into_inner()).unwrap();''',
    extra={"extract.py": '''import shutil, sys
so, work = sys.argv[1:]
shutil.copy(so, work + "/disc_riider_py.so")
sys.path.insert(0, work)
import disc_riider_py
e = disc_riider_py.WiiIsoExtractor(work + "/img.iso")
e.prepare_extract_section("update")
e.prepare_extract_section("data")
v = []
e.extract_to(work + "/out", v.append)
ok = v[0] == 0 and v[-1] == 100
print("ok" if ok else "FAIL: progress ends at %d" % v[-1])
sys.exit(0 if ok else 1)
'''})

bug("header-from-disc-folder", "C03",
    "a source directory that also holds disc/header.bin, with other contents than sys/boot.bin",
    "the image gets the disc header of that file instead of boot.bin's",
    [(BU, """        let path = dir.join("DATA/sys/boot.bin");
        try_open(path)?""", """        let mut path = dir.join("DATA/disc/header.bin");
        if !path.is_file() {
            path = dir.join("DATA/sys/boot.bin");
        }
        try_open(path)?""")],
    '''
    let s = sys(34);
    let root = scratch.join("src");
    write_dir(&root, &s, &[("a", fill(100, 1))]);
    let plain = build_dir(&root);
    let mut other = std::fs::read(root.join("DATA/sys/boot.bin")).unwrap();
    other[..6].copy_from_slice(b"ZZZZ99");
    std::fs::write(root.join("DATA/disc/header.bin"), other).unwrap();
    let again = build_dir(&root);
    check(plain[..0x440] == again[..0x440], "the disc header changed");''')

bug("positioned-read-overruns", "C07",
    "a positioned read that starts inside the data of a partition and asks for more than there is, with another partition behind",
    "bytes from behind the end of the partition's data are returned as its data",
    [(NR, "            if offset >= self.data_size {", "            if buffer.is_empty() && offset >= self.data_size {")],
    '''
    let s = sys(35);
    let mut c = Cursor::new(Vec::new());
    let mut b = builder(&mut c, &s);
    add(&mut b, WiiPartType::Data, &mut Def::new(&s, &[("a", fill(100, 1), 0)])).expect("add");
    add(&mut b, WiiPartType::Channel, &mut Def::new(&s, &[("b", fill(5_000_000, 2), 0)])).expect("add");
    b.finish().expect("finish");
    drop(b);
    let mut r = WiiIsoReader::open(c).expect("open");
    let e = r.partitions()[0].clone();
    let mut p = r.open_partition(e).expect("open partition");
    let size = *p.get_partition_header().data_size;
    let mut v = Vec::new();
    let res = p.get_crypto_reader(&mut r).read_into_vec(size - 10, 1000, &mut v);
    check(res.is_err() || v.len() == 10, &format!("{} bytes from the last 10", v.len()));''')

bug("relative-seek-32bit", "C07",
    "a relative seek of more than 2 GiB in a partition's data",
    "the position ends up somewhere else",
    [(NR, "SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off,",
      "SeekFrom::Current(off) => self.crypt_part_state.current_position as i64 + off as i32 as i64,")],
    '''
    let s = sys(36);
    let img = build_def(&mut Def::new(&s, &[("a", fill(100, 1), 0)]));
    let mut r = WiiIsoReader::open(Cursor::new(img)).expect("open");
    let e = r.partitions()[0].clone();
    let mut p = r.open_partition(e).expect("open partition");
    let mut w = p.get_crypto_reader(&mut r);
    w.seek(SeekFrom::Start(1000)).unwrap();
    let at = w.seek(SeekFrom::Current(3 << 30)).unwrap();
    check(at == 1000 + (3 << 30), &format!("position {at:#x}"));''')
