//! Locating the end record: all comment lengths, hostile comments, and sources without one.
use crate::chaos::{Bytes, Schedule, Source, Store};
use crate::exec::{run, run_tokio};
use crate::gen;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::sparse::{zeros, Sparse};
use crate::zipref::{Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek};
use async_zip::error::ZipError;
use async_zip::ZipFile;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C21",
    level: "exploration",
    rule: "cases 0..2047: all 65536 comment lengths, each with a comment of one of seven classes (plain, random, repeated signatures or their first bytes, signatures of other structures, forged end records pointing nowhere or at a foreign directory whose comment does not reach the end, the archive's own first bytes) behind an archive of random length with forged end records in its stored data; classic or with ZIP64 end; opened by the in-memory, seekable (random delivery) and file-system readers; cases 2048..2303: sources without an end record of all lengths 0..8191, of random content, with signatures cut off at the end; cases 2304..: random lengths near block boundaries, sources of up to terabytes without an end record or with one too far from the end; oracle: entry list, entry content and comment of the emitter; for non-archives the error, the lowest position touched and the number of bytes read; non-trivial = every opened or refused source; distinct by (comment length, class) or source",
    assumptions: &["comments embedding a whole end record whose comment reaches exactly to the end of the data are excluded", "a bounded tail is taken to mean the last 128 KiB, read at most four times over"],
    cases: |t| t.pick(2304 + 4000, 2304 + 400000),
    budget: |t| t.pick(100, 1800),
    threads: 8,
    run: case_run,
    must_observe: &["comment_lengths", "forged_records", "locators_imitated", "zip64_archives", "fs_opens", "seek_opens", "refused", "refused_huge", "too_far", "cut_off"],
    exhaustive: false,
};

const SIG: [u8; 4] = [0x50, 0x4B, 5, 6];
const TAIL: u64 = 128 << 10;

fn forged(r: &mut Rng, comment_len: u16) -> Vec<u8> {
    let mut v = SIG.to_vec();
    match r.below(4) {
        0 => v.extend([0u8; 16]),
        1 => v.extend(r.bytes(16)),
        2 => v.extend([0xFFu8; 16]),
        _ => {
            v.extend([0, 0, 0, 0, 1, 0, 1, 0, 46, 0, 0, 0]);
            v.extend((r.below(4000) as u32).to_le_bytes());
        }
    }
    v.extend(comment_len.to_le_bytes());
    v
}

/// Whether an end record embedded in the comment reaches exactly to the end.
fn ambiguous(c: &[u8]) -> bool {
    c.windows(22).enumerate().any(|(i, w)| w[..4] == SIG && u16::from_le_bytes([w[20], w[21]]) as usize == c.len() - i - 22)
}

fn comment(r: &mut Rng, n: usize, class: usize, case: &mut Case) -> Vec<u8> {
    let mut c: Vec<u8> = match class {
        0 => vec![*r.pick(&[0u8, b' ', b'P', 0xFF, 0x50]); n],
        1 => r.bytes(n),
        2 => {
            let unit: &[u8] = *r.pick(&[&SIG[..], &SIG[..3], &SIG[..2], &[0x50, 0x4B, 5, 0x50, 0x4B, 5, 6, 6][..], &[0x50, 0x50, 0x4B, 5, 6, 0][..]]);
            unit.iter().cycle().take(n).copied().collect()
        }
        3 => {
            let mut v = Vec::new();
            while v.len() < n {
                v.extend(*r.pick(&[&b"PK\x03\x04"[..], b"PK\x01\x02", b"PK\x06\x06", b"PK\x06\x07", b"PK\x07\x08", b"PK\x05\x05"]));
                let k = r.below(60);
                v.extend(r.bytes(k));
            }
            v.truncate(n);
            v
        }
        4 => {
            let mut v = r.bytes(n);
            for _ in 0..r.range(1, 30) {
                let len = *r.pick(&[0u16, 1, 22, 65535, 65534, 300]);
                let len = if r.chance(1, 2) { len } else { r.u16() };
                let f = forged(r, len);
                if n >= f.len() {
                    let at = match r.below(5) {
                        0 => n - f.len(),
                        1 => 0,
                        // Across the edges of the blocks in which the tail is likely to be read.
                        2 => (n + 22).saturating_sub(r.range(0, 40) * 2022 + r.range(0, 30)).min(n - f.len()),
                        _ => r.below(n - f.len() + 1),
                    };
                    v[at..at + f.len()].copy_from_slice(&f);
                    case.count("forged_records", 1);
                }
            }
            v
        }
        5 => {
            // A record which nearly reaches the end.
            let mut v = vec![b'.'; n];
            if n >= 22 {
                let at = r.below(n - 21);
                let exact = (n - at - 22) as u16;
                let len = *r.pick(&[exact.wrapping_sub(1), exact.wrapping_add(1), exact.wrapping_add(22), exact.wrapping_sub(22), exact ^ 0x100]);
                let f = forged(r, len);
                v[at..at + 22].copy_from_slice(&f);
                case.count("forged_records", 1);
            }
            v
        }
        _ => {
            let mut sy = Synth::default();
            sy.entries.push(SynthEntry::new(b"inner", 0, b"inner archive".to_vec(), 1));
            let b = sy.build().0;
            b.iter().cycle().take(n).copied().collect()
        }
    };
    // Bytes which may be taken for padding.
    if n > 0 && r.chance(1, 4) {
        let k = r.range(1, n.min(20));
        let b = *r.pick(&[0u8, 0, b' ', b'\n', 0xFF]);
        if r.chance(1, 4) {
            c[..k].fill(b);
        } else {
            c[n - k..].fill(b);
        }
        case.count("padded_comments", 1);
    }
    let mut guard = 0;
    while ambiguous(&c) && guard < 1000 {
        // The last bytes of a repeated pattern may happen to fit: break that one up.
        let i = c.windows(22).enumerate().rposition(|(i, w)| w[..4] == SIG && u16::from_le_bytes([w[20], w[21]]) as usize == c.len() - i - 22).unwrap();
        c[i + 3] = 7;
        guard += 1;
    }
    c
}

fn check(f: &ZipFile, sy: &Synth, w: &str) -> Verdict {
    ensure!(f.comment().as_bytes() == sy.comment, "{w}: the comment has {} bytes and differs", f.comment().as_bytes().len());
    ensure!(f.zip64() == sy.z64_end, "{w}: taken for {}a ZIP64 archive", if f.zip64() { "" } else { "other than " });
    ensure!(f.entries().len() == sy.entries.len(), "{w}: {} entries listed of {}", f.entries().len(), sy.entries.len());
    for (e, s) in f.entries().iter().zip(&sy.entries) {
        ensure!(e.comment().as_bytes() == s.comment, "{w}: entry comment {:?}", e.comment());
        ensure!(e.filename().as_bytes() == s.name, "{w}: name {:?}", e.filename());
        ensure!(e.uncompressed_size() == s.content.len() as u64, "{w}: size {}", e.uncompressed_size());
    }
    Ok(())
}

fn archive(case: &mut Case, r: &mut Rng, n: usize, class: usize) -> Verdict {
    let mut sy = Synth { comment: comment(r, n, class, case), z64_end: r.chance(1, 4), ..Default::default() };
    let k = r.below(3);
    for i in 0..k {
        let len = *r.pick(&[0usize, 40, 300, 2100]);
        let len = r.range(0, len);
        let mut data = r.bytes(len);
        if len >= 22 && r.chance(1, 2) {
            // Reaching exactly to the end, or nearly; there is at least an end record in between.
            let at = r.below(len - 21);
            let reach = r.range(n, n + 3000).min(65535) as u16;
            let f = forged(r, reach);
            data[at..at + 22].copy_from_slice(&f);
        }
        sy.entries.push(SynthEntry::new(format!("file{i}").as_bytes(), 0, data, 1));
    }
    // Right in front of the end record there may be what looks like a ZIP64 locator.
    if let (Some(e), true) = (sy.entries.last_mut(), r.chance(1, 8)) {
        if r.chance(1, 2) {
            e.comment.extend(gen::locator_like(r));
        } else {
            e.name.extend(gen::locator_like(r));
        }
        case.count("locators_imitated", 1);
    }
    let (mut bytes, lay) = sy.build();
    if r.chance(1, 3) && k > 0 {
        // One whose comment reaches exactly to the end, in front of the genuine one.
        let d = (lay.data[0], sy.entries[0].content.len());
        if d.1 >= 22 {
            let rest = bytes.len() as u64 - d.0 - 22;
            if rest <= 65535 {
                let mut f = forged(r, rest as u16);
                f.resize(d.1, 1);
                let c = std::mem::take(&mut sy.entries[0].comment);
                sy.entries[0] = SynthEntry::new(&sy.entries[0].name.clone(), 0, f, 1);
                sy.entries[0].comment = c;
                bytes = sy.build().0;
                case.count("exact_records_before", 1);
            }
        }
    }
    let w = format!("comment of {n} bytes (class {class}), {} bytes in all", bytes.len());
    case.eval();
    if sy.z64_end {
        case.count("zip64_archives", 1);
    }
    case.say(|| w.clone());
    let which = r.below(100);
    if which < 3 {
        let f = super::c01::scratch_file("c21");
        super::write_scratch(&f, &bytes);
        let z = run_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&f)).map_err(|e| format!("{w}: the file cannot be opened: {e:?}"))?;
        check(z.file(), &sy, &w)?;
        case.count("fs_opens", 1);
    } else if which < 40 {
        let (src, p) = Source::new(Arc::new(bytes), Schedule::random(r), r.fork());
        p.set_budget(40_000_000);
        let mut z = run(seek::ZipFileReader::new(src)).map_err(|e| format!("{w}: cannot be opened by seeking: {e:?}"))?;
        check(z.file(), &sy, &w)?;
        if k > 0 {
            let i = r.below(k);
            let mut v = vec![];
            run(async { z.reader_with_entry(i).await?.read_to_end_checked(&mut v).await }).map_err(|e| format!("{w}: entry {i} cannot be read: {e:?}"))?;
            ensure!(v == sy.entries[i].content, "{w}: entry {i} differs");
        }
        case.count("seek_opens", 1);
    } else {
        let z = run(mem::ZipFileReader::new(bytes)).map_err(|e| format!("{w}: cannot be opened: {e:?}"))?;
        check(z.file(), &sy, &w)?;
        case.count("mem_opens", 1);
    }
    case.distinct(&[n as u8, (n >> 8) as u8, class as u8]);
    Ok(())
}

fn refused<B: Bytes + 'static>(case: &mut Case, r: &mut Rng, data: Arc<B>, sched: Schedule, w: &str) -> Verdict {
    let len = data.len();
    let (src, p) = Source::new(data, sched, r.fork());
    p.set_budget(40_000_000);
    case.eval();
    match run(seek::ZipFileReader::new(src)) {
        Err(ZipError::UnableToLocateEOCDR) => {}
        Err(e) => bail!("{w}: refused with {e:?}"),
        Ok(_) => bail!("{w}: opened"),
    }
    let c = p.counters();
    let lowest = c.min_pos.unwrap_or(len);
    if c.bytes > 0 {
        ensure!(lowest >= len.saturating_sub(TAIL), "{w}: read at {} of {len}", lowest);
    }
    ensure!(c.bytes <= 4 * TAIL, "{w}: {} bytes read", c.bytes);
    case.max("bytes_read_of_non_archive", c.bytes);
    case.max("furthest_from_the_end", len.saturating_sub(lowest));
    case.count("refused", 1);
    case.distinct(w.as_bytes());
    Ok(())
}

fn without(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = match r.below(3) {
        0 => vec![0; n],
        1 => r.bytes(n),
        _ => [0x50, 0x4B, 5, 0x50, 0x4B, 0, 0x50].iter().cycle().take(n).copied().collect(),
    };
    for i in 3..n {
        if v[i - 3..=i] == SIG {
            v[i] = 9;
        }
    }
    v
}

fn short(case: &mut Case, r: &mut Rng, n: usize) -> Verdict {
    let v = without(r, n);
    let mut w = format!("{n} bytes without an end record");
    let mut v = v;
    if n >= 4 && r.chance(1, 4) {
        // A signature, but not enough room for the record.
        let at = n - r.range(4, 21).min(n);
        v[at..at + 4].copy_from_slice(&SIG);
        w = format!("{n} bytes with the last {} of them a cut-off end record", n - at);
        case.count("cut_off", 1);
    }
    if r.chance(1, 4) {
        match run(mem::ZipFileReader::new(v.clone())) {
            Err(ZipError::UnableToLocateEOCDR) => {}
            Err(e) => bail!("{w}: refused with {e:?}"),
            Ok(_) => bail!("{w}: opened"),
        }
    }
    if r.chance(1, 50) {
        let f = super::c01::scratch_file("c21");
        super::write_scratch(&f, &v);
        match run_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&f)) {
            Err(ZipError::UnableToLocateEOCDR) => {}
            Err(e) => bail!("{w}: the file is refused with {e:?}"),
            Ok(_) => bail!("{w}: the file is opened"),
        }
    }
    let s = if r.chance(1, 2) { Schedule::smooth() } else { Schedule::random(r) };
    refused(case, r, Arc::new(v), s, &w)
}

fn huge(case: &mut Case, r: &mut Rng) -> Verdict {
    let mut s = Sparse::default();
    let far = r.chance(1, 3);
    let n = r.below(4000);
    s.append(&without(r, n));
    if far {
        // A whole archive, long before the end.
        let mut sy = Synth::default();
        sy.entries.push(SynthEntry::new(b"far", 0, b"away".to_vec(), 1));
        s.append(&sy.build().0);
        let k = *r.pick(&[TAIL, TAIL + 1, 1 << 20, 1 << 30]);
        s.append(&zeros()[..k as usize]);
        case.count("too_far", 1);
    }
    for _ in 0..r.below(120) {
        let k = *r.pick(&[70_000usize, 1 << 20, 1 << 32, (1 << 32) - 1, 10 << 30, 20 << 30]);
        s.append(&zeros()[..k]);
    }
    let n = r.below(70_000);
    s.append(&without(r, n));
    let w = format!("{} bytes, {}", s.len, if far { "an archive too far from the end" } else { "no end record" });
    if s.len > 1 << 32 {
        case.count("refused_huge", 1);
    }
    case.max("longest_non_archive", s.len);
    let sched = if r.chance(1, 2) { Schedule::smooth() } else { Schedule::random(r) };
    refused(case, r, Arc::new(s), sched, &w)
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    match case.idx {
        0..=2047 => {
            for i in 0..32 {
                let n = case.idx as usize * 32 + i;
                let class = r.below(7);
                archive(case, &mut r, n, class)?;
                case.count("comment_lengths", 1);
            }
            Ok(())
        }
        2048..=2303 => {
            for i in 0..32 {
                short(case, &mut r, (case.idx as usize - 2048) * 32 + i)?;
            }
            Ok(())
        }
        k if k % 4 == 0 => huge(case, &mut r),
        k if k % 4 == 1 => {
            let n = r.below(140_000);
            short(case, &mut r, n)
        }
        k => {
            let n = match r.below(4) {
                0 => r.range(0, 64),
                1 => 65535 - r.range(0, 64),
                2 => (r.range(1, 64) * *r.pick(&[1024usize, 2048, 2022, 2026, 4096])).saturating_sub(r.range(0, 60)).min(65535),
                _ => r.below(65536),
            };
            archive(case, &mut r, n, k as usize / 4 % 7)
        }
    }
}
