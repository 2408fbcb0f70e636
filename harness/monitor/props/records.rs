//! C21: on-disc records.

use crate::gen;
use crate::glue::*;
use crate::refwii::*;
use crate::rng::{hash_bytes, Rng};
use crate::runner::*;
use binrw::{BinReaderExt, BinWriterExt};
use disc_riider::structs::*;
use std::io::Cursor;

pub const C21: Prop = Prop {
    id: "C21",
    run: c21,
    quick: 4000000,
    thorough: 100000000,
    rule: "a case is one record image (ticket, TMD, certificate, partition header, disc header, DOL or apploader header) with random or extreme field values, parsed and written back by the library and compared field by field with the reference layout; distinct by bytes",
    need: &[("tickets", 3000), ("tmds", 3000), ("certificates", 3000), ("partition headers", 3000), ("disc headers", 3000), ("full titles", 200), ("unknown keys refused", 100), ("other headers", 3000)],
};

fn write<T>(v: &T) -> Result<Vec<u8>, String>
where
    T: for<'a> binrw::BinWrite<Args<'a> = ()>,
{
    let mut c = Cursor::new(vec![]);
    c.write_be(v).map_err(|e| format!("write: {e}"))?;
    Ok(c.into_inner())
}

fn junk(rng: &mut Rng, b: &mut [u8]) {
    match rng.below(4) {
        0 => b.fill(0),
        1 => b.fill(0xff),
        _ => rng.fill(b),
    }
}

fn c21(c: &mut Case) -> Res {
    let rng = &mut c.rng;
    let bytes;
    match c.idx % 6 {
        0 => {
            let mut t = gen::ticket(rng);
            junk(rng, &mut t[0x104..0x140]);
            junk(rng, &mut t[0x1BC..0x1BF]);
            junk(rng, &mut t[0x1CF..0x1D0]);
            junk(rng, &mut t[0x1F2..0x222]);
            if rng.chance(1, 6) {
                t[0x1F1] = *rng.pick(&[2u8, 3, 0x7f, 0xff]);
                let r = catch(|| parse_ticket(&t)).map_err(|p| format!("ticket with common key {}: {p}", t[0x1F1]))?;
                if r.is_ok() {
                    return Err(format!("ticket with unknown common key {} accepted", t[0x1F1]));
                }
                // and a value made by hand cannot be written either
                t[0x1F1] = 0;
                let mut v = parse_ticket(&t).map_err(|e| e.to_string())?;
                v.common_key_idx = 2 + rng.below(200) as u8;
                let k = v.common_key_idx;
                if catch(|| write(&v)).map_err(|p| format!("writing common key {k}: {p}"))?.is_ok() {
                    return Err(format!("ticket with unknown common key {k} written"));
                }
                c.st.add("unknown keys refused", 1);
                return Ok(());
            }
            let v = parse_ticket(&t).map_err(|e| format!("ticket refused: {e}"))?;
            expect_eq("ticket fields", &ticket_bytes(&v), &ticket_defined(&t))?;
            let key = ticket_key(&t).unwrap();
            expect_eq("title key", &v.title_key, &key)?;
            let w = write(&v)?;
            if w.len() != TICKET_LEN {
                return Err(format!("ticket written as {} bytes", w.len()));
            }
            expect_eq("ticket written back", &ticket_defined(&w), &ticket_defined(&t))?;
            expect_eq("stored key written back", &w[0x1BF..0x1CF], &t[0x1BF..0x1CF])?;
            // a changed key is stored encrypted
            let mut v2 = v.clone();
            v2.title_key = rng.arr();
            rng.fill(&mut v2.title_id);
            let w = write(&v2)?;
            expect_eq("changed title key", &ticket_key(&w).ok_or("key index changed")?, &v2.title_key)?;
            c.st.add("tickets", 1);
            bytes = t;
        }
        1 => {
            let n = *rng.pick(&[0usize, 1, 1, 2, 5, 100, 513]);
            let mut t = gen::tmd(rng, n);
            junk(rng, &mut t[0x104..0x140]);
            junk(rng, &mut t[0x183..0x184]);
            junk(rng, &mut t[0x1D2..0x1D8]);
            junk(rng, &mut t[0x1E2..0x1E4]);
            let mut want = t.clone();
            for r in [0x104..0x140, 0x183..0x184, 0x1D2..0x1D8, 0x1E2..0x1E4] {
                want[r].fill(0);
            }
            let v = parse_tmd(&t).map_err(|e| format!("TMD refused: {e}"))?;
            expect_eq("TMD fields", &tmd_bytes(&v), &want)?;
            let mut w = write(&v)?;
            if w.len() != t.len() {
                return Err(format!("TMD of {} bytes written as {}", t.len(), w.len()));
            }
            for r in [0x104..0x140, 0x183..0x184, 0x1D2..0x1D8, 0x1E2..0x1E4] {
                w[r].fill(0);
            }
            expect_eq("TMD written back", &w, &want)?;
            c.st.add("tmds", 1);
            bytes = t;
        }
        2 => {
            let t = gen::certs(rng);
            let v = parse_certs(&t).map_err(|e| format!("certificates refused: {e}"))?;
            expect_eq("certificate fields", &certs_bytes(&v), &t)?;
            let w = write(&v)?;
            expect_eq("certificates written back", &w, &t)?;
            let one: Certificate = Cursor::new(&t[..]).read_be().map_err(|e| format!("certificate refused: {e}"))?;
            let w = write(&one)?;
            expect_eq("certificate written back", &w, t.get(..w.len()).unwrap_or(&[]))?;
            c.st.add("certificates", 1);
            bytes = t;
        }
        3 => {
            let mut t = gen::ticket(rng);
            t.extend(rng.bytes(PHDR_LEN - TICKET_LEN));
            if rng.chance(1, 4) {
                t[TICKET_LEN..].fill(0xff);
            }
            let v: WiiPartitionHeader = Cursor::new(&t[..]).read_be().map_err(|e| format!("partition header refused: {e}"))?;
            let f = [
                v.tmd_size as u64,
                *v.tmd_off,
                v.cert_chain_size as u64,
                *v.cert_chain_off,
                *v.global_hash_table_off,
                *v.data_off,
                *v.data_size,
            ];
            for (i, x) in f.iter().enumerate() {
                let raw = be32(&t, TICKET_LEN + i * 4) as u64;
                let want = if i == 0 || i == 2 { raw } else { raw << 2 };
                if *x != want {
                    return Err(format!("partition header field {i} reads {x:#x}, stored {want:#x}"));
                }
            }
            let w = write(&v)?;
            expect_eq("partition header written back", &w, &t)?;
            c.st.add("partition headers", 1);
            bytes = t;
        }
        4 => {
            let mut t = gen::disc_header(rng);
            rng.fill(&mut t[..10]);
            junk(rng, &mut t[10..0x18]);
            junk(rng, &mut t[0x62..0x400]);
            junk(rng, &mut t[0x408..0x420]);
            junk(rng, &mut t[0x43C..0x440]);
            rng.fill(&mut t[0x18..0x20]);
            let full = rng.chance(1, 4);
            if full {
                // the title fills its field: no terminator
                for b in t[0x20..0x60].iter_mut() {
                    *b = rng.range(0x20, 0x7e) as u8;
                }
                if rng.chance(1, 2) {
                    t[0x60] = rng.range(1, 255) as u8;
                    t[0x61] = rng.range(1, 255) as u8;
                }
                c.st.add("full titles", 1);
            }
            let mut want = t.clone();
            for r in [10..0x18usize, 0x62..0x400, 0x408..0x420, 0x43C..0x440] {
                want[r].fill(0);
            }
            // bytes after the title's terminator are padding
            if let Some(z) = want[0x20..0x60].iter().position(|b| *b == 0) {
                want[0x20 + z..0x60].fill(0);
            }
            let mut long = t.clone();
            long.extend(rng.bytes(64));
            let mut cur = Cursor::new(&long[..]);
            let v: DiscHeader = cur.read_be().map_err(|e| format!("disc header refused: {e}"))?;
            if cur.position() != HDR_LEN as u64 {
                return Err(format!("reading a disc header took {:#x} bytes", cur.position()));
            }
            expect_eq("disc header fields", &header_bytes(&v), &want)?;
            let mut w = write(&v)?;
            if w.len() != HDR_LEN {
                return Err(format!("disc header written as {:#x} bytes", w.len()));
            }
            for r in [10..0x18usize, 0x62..0x400, 0x408..0x420, 0x43C..0x440] {
                w[r].fill(0);
            }
            expect_eq("disc header written back", &w, &want)?;
            // a title set by hand is cut at the field, and nothing else moves
            let mut v2 = v.clone();
            let n = *rng.pick(&[0usize, 1, 63, 64, 65, 100, 300]);
            v2.game_title = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let w2 = write(&v2)?;
            if w2.len() != HDR_LEN {
                return Err(format!("disc header with a {n}-byte title written as {:#x} bytes", w2.len()));
            }
            let k = n.min(64);
            if w2[0x20..0x20 + k.min(63)] != v2.game_title.as_bytes()[..k.min(63)] {
                return Err(format!("title of {n} bytes not stored"));
            }
            expect_eq("fields after the title", &w2[0x60..0x62], &want[0x60..0x62])?;
            expect_eq("fields after the title", &w2[0x400..0x408], &want[0x400..0x408])?;
            expect_eq("fields after the title", &w2[0x420..0x43C], &want[0x420..0x43C])?;
            // titles that are not UTF-8 must not disturb the other fields
            let mut t3 = t.clone();
            rng.fill(&mut t3[0x20..0x60]);
            for b in t3[0x20..0x50].iter_mut() {
                if *b == 0 {
                    *b = 0x83;
                }
            }
            if let Ok(v3) = parse_header(&t3) {
                let mut w3 = write(&v3)?;
                if w3.len() != HDR_LEN {
                    return Err(format!("disc header with a non-UTF-8 title written as {:#x} bytes", w3.len()));
                }
                let mut want3 = want.clone();
                for r in [10..0x18usize, 0x20..0x60, 0x62..0x400, 0x408..0x420, 0x43C..0x440] {
                    want3[r.clone()].fill(0);
                    w3[r].fill(0);
                }
                expect_eq("disc header with a non-UTF-8 title", &w3, &want3)?;
                c.st.add("odd titles", 1);
            }
            c.st.add("disc headers", 1);
            bytes = t;
        }
        _ => {
            let t = rng.bytes(0x100);
            let v: DOLHeader = Cursor::new(&t[..]).read_be().map_err(|e| format!("DOL header refused: {e}"))?;
            let mut want = vec![];
            for f in [&v.text_off[..], &v.data_off, &v.text_starts, &v.data_starts, &v.text_sizes, &v.data_sizes] {
                for x in f {
                    want.extend(x.to_be_bytes());
                }
            }
            for x in [v.bss_start, v.bss_size, v.entry_point] {
                want.extend(x.to_be_bytes());
            }
            expect_eq("DOL header fields", &want, &t[..0xE4])?;
            let w = write(&v)?;
            expect_eq("DOL header written back", &w, &t[..w.len().min(0x100)])?;
            if w.len() < 0xE4 {
                return Err(format!("DOL header written as {} bytes", w.len()));
            }
            let v: ApploaderHeader = Cursor::new(&t[..]).read_be().map_err(|e| format!("apploader header refused: {e}"))?;
            if v.size1 != be32(&t, 0x14) || v.size2 != be32(&t, 0x18) {
                return Err("apploader header fields read from other places".into());
            }
            let w = write(&v)?;
            if w.len() < 0x1C || be32(&w, 0x14) != v.size1 || be32(&w, 0x18) != v.size2 {
                return Err("apploader header written to other places".into());
            }
            c.st.add("other headers", 1);
            bytes = t;
        }
    }
    c.st.distinct(hash_bytes(&bytes));
    let idx = c.idx;
    c.st.sample(|| format!("record kind {} of {} bytes, first bytes {:02x?}", idx % 6, bytes.len(), &bytes[..8]));
    Ok(())
}
