//! Damaged records: the error names the damage, and everything else stays readable.
use crate::chaos::{Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::gen;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::EntryView;
use crate::zipref::{self, Desc, Extra, Layout, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, stream};
use async_zip::error::ZipError;
use futures_lite::io::{AsyncReadExt, Cursor};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C23",
    level: "exploration",
    rule: "case = a synthesised archive of 1..5 entries (all methods, descriptors, ZIP64 forms, shuffled directory) with one place damaged: signature of a central or local header, directory offset or local header offset, entry count, length of an extra field (central or local), a Unicode field cut short (central or local), entry data, recorded checksum; opened and read in full by the in-memory, seekable and file-system readers and stepped through forward; oracle: the damage and the layout of the archive give the operation that has to fail, the error variant and its values, and everything that has to stay readable with the values of the undamaged archive; non-trivial = every case; distinct by damaged bytes",
    assumptions: &["damage which turns one signature into that of another record is not considered in forward reading"],
    cases: |t| t.pick(60000, 1500000),
    budget: |t| t.pick(60, 900),
    threads: 8,
    run: case_run,
    must_observe: &["single_entries", "central_signature", "local_signature", "directory_offset", "local_offset", "entry_count", "central_extra_length", "local_extra_length", "central_unicode_field", "local_unicode_field", "entry_data", "recorded_checksum", "refused_by_name", "ends_too_early", "others_intact", "forward_entries_before", "fs_opens"],
    exhaustive: false,
};

/// What an operation has to end in.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Fine,
    Header(u32, u32),
    Extra(u16, usize),
    UnicodePath,
    UnicodeComment,
    Crc,
    /// Any error but a wrong success.
    SomeError,
    Eof,
}

fn is(e: &ZipError, w: &Want) -> bool {
    match (e, w) {
        (ZipError::UnexpectedHeaderError(a, b), Want::Header(x, y)) => a == x && b == y,
        (ZipError::InvalidExtraFieldHeader(a, b), Want::Extra(x, y)) => a == x && b == y,
        (ZipError::InfoZipUnicodePathFieldIncomplete, Want::UnicodePath) => true,
        (ZipError::InfoZipUnicodeCommentFieldIncomplete, Want::UnicodeComment) => true,
        (ZipError::CRC32CheckError, Want::Crc) => true,
        // Beyond its end a source may also refuse to be positioned.
        (ZipError::UpstreamReadError(_), Want::Eof) => true,
        (_, Want::SomeError) => true,
        _ => false,
    }
}

struct Damage {
    what: &'static str,
    /// Opening by random access.
    open: Want,
    /// Reading the entry at this place of the listing.
    entry: Option<(usize, Want)>,
    /// Forward reading: after this many entries.
    forward: Option<(usize, Want)>,
    /// Listed with another offset or checksum.
    offset: Option<(usize, u64)>,
    crc: Option<(usize, u32)>,
}

fn base(r: &mut Rng) -> Synth {
    let n = r.range(1, 5);
    let mut sy = Synth::default();
    for i in 0..n {
        let m = *r.pick(&[0u16, 0, 8, 8, 9, 12, 93, 95]);
        let m = if m == 95 && r.chance(2, 3) { 8 } else { m };
        let mut c = gen::content(r, 600);
        if c.is_empty() {
            c = vec![i as u8; 3];
        }
        let mut e = SynthEntry::new(format!("entry {i}").as_bytes(), m, c, 3);
        e.extra_local = super::c02::foreign_extras(r);
        e.extra_central = super::c02::foreign_extras(r);
        e.comment = gen::string(r, 12, false).raw;
        e.date = r.u16();
        e.time = r.u16();
        if m != 0 && r.chance(1, 3) {
            e.desc = *r.pick(&[Desc::Sig, Desc::Sig64, Desc::NoSig]);
            e.z64_local = e.desc == Desc::Sig64;
        } else {
            e.z64_local = r.chance(1, 4);
        }
        if e.crc == zipref::DESC {
            e.desc = Desc::None;
        }
        e.z64_central = (r.chance(1, 4), r.chance(1, 4), r.chance(1, 4));
        sy.entries.push(e);
    }
    let mut order: Vec<usize> = (0..n).collect();
    if r.chance(1, 3) {
        for i in (1..n).rev() {
            order.swap(i, r.below(i + 1));
        }
    }
    sy.order = order;
    sy.z64_end = r.chance(1, 3);
    sy.z64_mask = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    sy.comment = gen::string(r, 20, false).raw;
    sy
}

fn u32_at(b: &[u8], at: u64) -> Option<u32> {
    b.get(at as usize..at as usize + 4).map(|s| u32::from_le_bytes(s.try_into().unwrap()))
}

fn put(b: &mut [u8], at: u64, v: u64, n: usize) {
    b[at as usize..at as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
}

/// A signature that is none.
fn spoil(r: &mut Rng, sig: u32) -> u32 {
    loop {
        let s = match r.below(4) {
            0 => sig ^ 1 << r.below(32),
            1 => r.u32(),
            2 => zipref::DESC,
            _ => *r.pick(&[0, u32::MAX, sig.swap_bytes(), sig.rotate_left(8)]),
        };
        if ![zipref::LFH, zipref::CDH, zipref::EOCD, zipref::Z64EOCD].contains(&s) {
            return s;
        }
    }
}

/// The header found where an archive points to, if it is not the one expected.
fn found(b: &[u8], at: u64, sig: u32) -> Want {
    match u32_at(b, at) {
        Some(x) if x == sig => Want::Fine,
        Some(x) => Want::Header(x, sig),
        None => Want::Eof,
    }
}

fn damage(r: &mut Rng, sy: &mut Synth) -> Option<(Vec<u8>, Layout, Damage)> {
    let n = sy.entries.len();
    // Of the listing and physically.
    let k = r.below(n);
    let i = sy.order[k];
    let mut d = Damage { what: "", open: Want::Fine, entry: None, forward: None, offset: None, crc: None };
    let kind = r.below(11);
    // Those which change the archive's lengths come before it is built.
    match kind {
        5 | 6 => {
            let field = Extra { id: *r.pick(&[0x5455u16, 0xcafe, 0x0000, 0xFFFF]), data: { let k = r.below(30); r.bytes(k) } };
            if kind == 5 {
                sy.entries[i].extra_central.push(field);
                sy.entries[i].z64_pos = 0;
            } else {
                // The ZIP64 field comes first in the local header.
                sy.entries[i].extra_local.push(field);
            }
        }
        7 | 8 => {
            let len = r.below(5);
            let path = r.chance(1, 2);
            let mut data = r.bytes(len);
            if len > 0 {
                data[0] = 1;
            }
            let field = Extra { id: if path { 0x7075 } else { 0x6375 }, data };
            let w = if path { Want::UnicodePath } else { Want::UnicodeComment };
            if kind == 7 {
                sy.entries[i].extra_central.push(field);
                d.what = "central_unicode_field";
                d.open = w;
            } else {
                sy.entries[i].extra_local.push(field);
                d.what = "local_unicode_field";
                d.forward = Some((i, w));
            }
        }
        _ => {}
    }
    let (mut b, lay) = sy.build();
    let masked_offset = sy.z64_end && sy.z64_mask.2;
    let masked_count = sy.z64_end && sy.z64_mask.0;
    match kind {
        0 => {
            d.what = "central_signature";
            let s = spoil(r, zipref::CDH);
            put(&mut b, lay.central[k], s as u64, 4);
            d.open = Want::Header(s, zipref::CDH);
            if k == 0 {
                d.forward = Some((n, Want::Header(s, zipref::LFH)));
            }
        }
        1 => {
            d.what = "local_signature";
            let s = spoil(r, zipref::LFH);
            put(&mut b, lay.local[i], s as u64, 4);
            d.entry = Some((k, Want::Header(s, zipref::LFH)));
            d.forward = Some((i, Want::Header(s, zipref::LFH)));
        }
        2 => {
            d.what = "directory_offset";
            let to = match r.below(4) {
                0 => lay.cd_off.wrapping_add(r.range(1, 60) as u64),
                1 => lay.cd_off.wrapping_sub(r.range(1, 60) as u64),
                2 => r.below(b.len() + 40) as u64,
                _ => *r.pick(&[0, 0x7FFF_FFFF, b.len() as u64, b.len() as u64 - 1, b.len() as u64 - 4]),
            };
            if masked_offset {
                put(&mut b, lay.z64rec + 48, to & (i64::MAX as u64), 8);
            } else {
                put(&mut b, lay.eocd + 16, to & 0x7FFF_FFFF, 4);
            }
            let to = if masked_offset { to & i64::MAX as u64 } else { to & 0x7FFF_FFFF };
            d.open = if to >= b.len() as u64 { Want::Eof } else { found(&b, to, zipref::CDH) };
            if d.open == Want::Fine {
                return None;
            }
        }
        3 => {
            d.what = "local_offset";
            if sy.entries[i].z64_central.2 {
                return None;
            }
            let o = lay.local[i];
            let to = match r.below(4) {
                0 => o.wrapping_add(r.range(1, 60) as u64),
                1 => o.wrapping_sub(r.range(1, 60) as u64),
                2 => r.below(b.len() + 40) as u64,
                _ => *r.pick(&[lay.cd_off, 0x7FFF_FFFF, b.len() as u64, b.len() as u64 - 1, lay.eocd]),
            } & 0x7FFF_FFFF;
            put(&mut b, lay.central[k] + 42, to, 4);
            let w = if to >= b.len() as u64 { Want::Eof } else { found(&b, to, zipref::LFH) };
            if w == Want::Fine {
                return None;
            }
            d.entry = Some((k, w));
            d.offset = Some((k, to));
        }
        4 => {
            d.what = "entry_count";
            let more = n as u64 + *r.pick(&[1u64, 2, 100, 60_000]);
            if masked_count {
                put(&mut b, lay.z64rec + 24, more, 8);
                put(&mut b, lay.z64rec + 32, more, 8);
            } else {
                put(&mut b, lay.eocd + 8, more, 2);
                put(&mut b, lay.eocd + 10, more, 2);
            }
            d.open = found(&b, lay.cd_off + lay.cd_size, zipref::CDH);
        }
        5 | 6 => {
            let (at, extras, whole) = if kind == 5 { (lay.central[k], &sy.entries[i].extra_central, 46u64) } else { (lay.local[i], &sy.entries[i].extra_local, 30) };
            let (nl, xl) = if kind == 5 { (28, 30) } else { (26, 28) };
            let u16_at = |o: u64| u16::from_le_bytes([b[o as usize], b[o as usize + 1]]) as u64;
            let end = at + whole + u16_at(at + nl) + u16_at(at + xl);
            let len = extras.last().expect("pushed").data.len();
            let header = end - len as u64 - 4;
            let size = (len as u64 + *r.pick(&[1u64, 2, 4, 300, 60_000])).min(65535);
            put(&mut b, header + 2, size, 2);
            let w = Want::Extra(size as u16, len);
            if kind == 5 {
                d.what = "central_extra_length";
                d.open = w;
            } else {
                d.what = "local_extra_length";
                d.forward = Some((i, w));
            }
        }
        9 => {
            d.what = "entry_data";
            let (a, z) = (lay.data[i], lay.data_end[i]);
            if a == z {
                return None;
            }
            let at = r.range(a as usize, z as usize - 1);
            b[at] ^= 1 << r.below(8);
            let stored = sy.entries[i].method == 0;
            // Not every bit of a compressed stream matters.
            d.entry = Some((k, if stored { Want::Crc } else { Want::SomeError }));
            d.forward = Some((i, if stored { Want::Crc } else { Want::SomeError }));
        }
        10 => {
            d.what = "recorded_checksum";
            let c = sy.entries[i].crc ^ 1 << r.below(32);
            put(&mut b, lay.central[k] + 16, c as u64, 4);
            d.entry = Some((k, Want::Crc));
            d.crc = Some((k, c));
        }
        _ => {}
    }
    Some((b, lay, d))
}

/// Reads one entry and holds the outcome against what is wanted.
fn judge(case: &mut Case, w: &str, want: &Want, content: &[u8], got: Result<Vec<u8>, ZipError>) -> Verdict {
    case.eval();
    match (got, want) {
        (Ok(v), Want::Fine) => {
            ensure!(v == content, "{w}: {} bytes delivered, {} stored", v.len(), content.len());
            case.count("others_intact", 1);
        }
        (Ok(v), Want::SomeError) => ensure!(v == content, "{w}: damaged data are accepted"),
        (Ok(_), _) => bail!("{w}: succeeds, {want:?} is wanted"),
        (Err(e), Want::Fine) => bail!("{w}: is not affected by the damage, but fails: {e:?}"),
        (Err(e), want) => {
            ensure!(is(&e, want), "{w}: fails with {e:?}, {want:?} is wanted");
            case.count(if *want == Want::Eof { "ends_too_early" } else { "refused_by_name" }, 1);
        }
    }
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let mut sy = base(&mut r);
    let Some((bytes, _, d)) = damage(&mut r, &mut sy) else { return Ok(()) };
    let (good, _) = sy.build();
    let n = sy.entries.len();
    let what = format!("{} ({n} entries, order {:?}, ZIP64 end {}): {:?}/{:?}/{:?}", d.what, sy.order, sy.z64_end, d.open, d.entry, d.forward);
    case.say(|| what.clone());
    case.sample(|| what.clone());
    case.distinct(&bytes);
    case.count(d.what, 1);
    // The listing of the undamaged archive; fields of the central records that are damaged by being there count as present.
    let truth: Option<Vec<(EntryView, u64)>> = if d.open == Want::Fine {
        let z = run(mem::ZipFileReader::new(good.clone())).map_err(|e| format!("the undamaged archive cannot be opened: {e:?}"))?;
        Some(
            z.file()
                .entries()
                .iter()
                .enumerate()
                .map(|(k, e)| {
                    let mut v = EntryView::of(e);
                    if let Some((_, c)) = d.crc.filter(|c| c.0 == k) {
                        v.crc = c;
                    }
                    (v, d.offset.filter(|o| o.0 == k).map_or(e.header_offset(), |o| o.1))
                })
                .collect(),
        )
    } else {
        None
    };
    let of = |k: usize| d.entry.as_ref().filter(|e| e.0 == k).map_or(Want::Fine, |e| e.1.clone());
    macro_rules! open {
        ($z:expr, $name:expr) => {
            match $z {
                Err(e) => {
                    case.eval();
                    ensure!(d.open != Want::Fine, "{}: {what}: does not concern opening, which fails: {e:?}", $name);
                    ensure!(is(&e, &d.open), "{}: {what}: opening fails with {e:?}", $name);
                    case.count(if d.open == Want::Eof { "ends_too_early" } else { "refused_by_name" }, 1);
                    None
                }
                Ok(z) => {
                    ensure!(d.open == Want::Fine, "{}: {what}: opening succeeds", $name);
                    let got: Vec<_> = z.file().entries().iter().map(|e| (EntryView::of(e), e.header_offset())).collect();
                    ensure!(Some(&got) == truth.as_ref(), "{}: {what}: the listing changes: {got:?}", $name);
                    Some(z)
                }
            }
        };
    }
    macro_rules! entries {
        ($z:ident, $name:expr, $run:expr) => {
            for k in 0..n {
                let mut v = vec![];
                let got = $run(async { $z.reader_with_entry(k).await?.read_to_end_checked(&mut v).await });
                judge(case, &format!("{}: {what}: entry {k}", $name), &of(k), &sy.entries[sy.order[k]].content, got.map(|_| v))?;
                // Without the entry nothing is checked, but headers are.
                if matches!(of(k), Want::Fine | Want::Header(..) | Want::Eof) {
                    let mut v = vec![];
                    let got = $run(async { Ok($z.reader_without_entry(k).await?.read_to_end(&mut v).await?) });
                    judge(case, &format!("{}: {what}: entry {k} without its record", $name), &of(k), &sy.entries[sy.order[k]].content, got.map(|_| v))?;
                }
            }
        };
    }
    match r.below(20) {
        0 => {
            let f = super::c01::scratch_file("c23");
            super::write_scratch(&f, &bytes);
            case.count("fs_opens", 1);
            if let Some(z) = open!(run_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&f)), "file") {
                entries!(z, "file", run_tokio);
            }
            let _ = std::fs::remove_file(&f);
        }
        1..=9 => {
            let (src, p) = Source::new(Arc::new(bytes.clone()), Schedule::random(&mut r), r.fork());
            p.set_budget(4_000_000);
            if let Some(mut z) = open!(run(seek::ZipFileReader::new(src)), "seek") {
                entries!(z, "seek", run);
                let k = r.below(n);
                if matches!(of(k), Want::Fine | Want::Header(..) | Want::Eof) {
                    let mut v = vec![];
                    let got = run(async { Ok(z.into_entry(k).await?.read_to_end(&mut v).await?) });
                    judge(case, &format!("seek: {what}: entry {k} alone"), &of(k), &sy.entries[sy.order[k]].content, got.map(|_| v))?;
                    case.count("single_entries", 1);
                }
            }
        }
        _ => {
            if let Some(z) = open!(run(mem::ZipFileReader::new(bytes.clone())), "memory") {
                entries!(z, "memory", run);
            }
        }
    }
    // Forward.
    let (stop, want) = d.forward.clone().unwrap_or((n, Want::Fine));
    let res: Result<(), (usize, bool, ZipError)> = run(async {
        let mut z = stream::ZipFileReader::new(Cursor::new(&bytes[..]));
        let mut at = 0;
        loop {
            let rd = match z.next_with_entry().await {
                Err(e) => return Ok(Err((at, true, e))),
                Ok(None) => break,
                Ok(Some(rd)) => rd,
            };
            let mut rd = rd;
            ensure!(at < n, "forward: {what}: more than {n} entries");
            let mut v = vec![];
            let e = &sy.entries[at];
            let res = rd.reader_mut().read_to_end(&mut v).await.map(|_| ()).map_err(ZipError::from);
            let res = match res {
                Ok(()) if rd.reader_mut().compute_hash() != e.crc => Err(ZipError::CRC32CheckError),
                x => x,
            };
            match res {
                Err(e) => return Ok(Err((at, false, e))),
                Ok(()) => ensure!(v == e.content, "forward: {what}: entry {at} differs"),
            }
            z = match rd.done().await {
                Ok(z) => z,
                Err(e) => return Ok(Err((at, false, e))),
            };
            case.count("forward_entries_before", 1);
            at += 1;
        }
        ensure!(at == n, "forward: {what}: clean end after {at} entries");
        Ok::<_, String>(Ok(()))
    })?;
    case.eval();
    match (res, want) {
        (Ok(()), Want::Fine | Want::SomeError) => {}
        (Ok(()), w) => bail!("forward: {what}: a clean end, {w:?} is wanted"),
        (Err((at, _, e)), Want::Fine) => bail!("forward: {what}: not affected, but fails at entry {at}: {e:?}"),
        // Data whose end is found by the decoder may be followed by the wrong place.
        (Err((at, _, e)), Want::SomeError) => ensure!(at >= stop, "forward: {what}: fails at entry {at} before the damage: {e:?}"),
        (Err((at, _, e)), w) => {
            ensure!(at == stop && is(&e, &w), "forward: {what}: fails at entry {at} with {e:?}, {w:?} at {stop} is wanted");
            case.count("refused_by_name", 1);
        }
    }
    Ok(())
}
