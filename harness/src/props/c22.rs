//! Entry descriptions and strings against a model of plain values.
use crate::exec::run;
use crate::gen::{self, Limits};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{dos, EntryView, Str};
use crate::{bail, ensure};
use async_zip::base::read::mem::ZipFileReader;
use async_zip::error::ZipError;
use async_zip::{AttributeCompatibility, Compression, StringEncoding, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder, ZipFile, ZipFileBuilder, ZipString};

pub const PROP: Prop = Prop {
    id: "C22",
    level: "exploration",
    rule: "case = a history of 1..60 builder calls (every setter, build, conversions and clones in between, copies of extra fields of other entries) on a new entry or on one listed from an archive, with the entry reported by the builder compared after each call with a model holding plain values, and now and then the compression option seen in what data compress to; strings made by each constructor from text, raw bytes, broken UTF-8 of every kind and alternatives, with every accessor compared; archive descriptions; and case 0: all 65536 method and host system codes both ways; non-trivial = every history; distinct by sequence of calls and values",
    assumptions: &["what std::str::from_utf8 accepts is UTF-8"],
    cases: |t| t.pick(150000, 3000000),
    budget: |t| t.pick(60, 900),
    threads: 8,
    run: case_run,
    must_observe: &["calls_compared", "entries_edited_from_archives", "strings_compared", "broken_texts", "codes_compared", "files_compared", "extra_fields_moved", "options_observed", "equal_alternatives"],
    exhaustive: false,
};

/// Bytes of every kind: text, nearly text, anything.
fn any_bytes(r: &mut Rng, case: &mut Case) -> Vec<u8> {
    let mut v = gen::string(r, 30, false).raw;
    if r.chance(1, 2) {
        let bad: &[u8] = *r.pick(&[
            &[0x80u8][..],
            &[0xC0, 0x80],
            &[0xC1, 0xBF],
            &[0xC3],
            &[0xE0, 0x80, 0x80],
            &[0xE0, 0x9F, 0xBF],
            &[0xE2, 0x82],
            &[0xED, 0xA0, 0x80],
            &[0xED, 0xBF, 0xBF],
            &[0xF0, 0x80, 0x80, 0x80],
            &[0xF0, 0x9F, 0x98],
            &[0xF4, 0x90, 0x80, 0x80],
            &[0xF5, 0x80, 0x80, 0x80],
            &[0xF8, 0x88, 0x80, 0x80, 0x80],
            &[0xFE],
            &[0xFF, 0xFE],
        ]);
        let at = match r.below(3) {
            0 => 0,
            1 => v.len(),
            _ => r.below(v.len() + 1),
        };
        v.splice(at..at, bad.iter().copied());
        case.count("broken_texts", 1);
    }
    v
}

fn model(s: &ZipString, raw: &[u8], utf8: bool, alt: Option<&[u8]>, w: &str) -> Verdict {
    ensure!(s.as_bytes() == raw, "{w}: the bytes are {:02x?}, given {raw:02x?}", s.as_bytes());
    ensure!(matches!(s.encoding(), StringEncoding::Utf8) == utf8, "{w}: the encoding is {:?} for {raw:02x?}", s.encoding());
    ensure!(s.alternative() == alt, "{w}: the alternative is {:?}, given {alt:?}", s.alternative());
    ensure!(s.clone().into_alternative().as_deref() == alt, "{w}: the alternative taken out is not {alt:?}");
    ensure!(s.is_utf8_without_alternative() == (utf8 && alt.is_none()), "{w}: plain UTF-8 is reported as {}", s.is_utf8_without_alternative());
    match (s.as_str(), s.clone().into_string()) {
        (Ok(a), Ok(b)) => ensure!(utf8 && a.as_bytes() == raw && b.as_bytes() == raw && std::str::from_utf8(a.as_bytes()).is_ok(), "{w}: the text {a:?} or {b:?} of {raw:02x?}"),
        (Err(ZipError::StringNotUtf8), Err(ZipError::StringNotUtf8)) => ensure!(!utf8, "{w}: text is refused"),
        (a, b) => bail!("{w}: as_str gives {a:?}, into_string {b:?}"),
    }
    Ok(())
}

fn string(case: &mut Case, r: &mut Rng) -> Result<(ZipString, Str), String> {
    let raw = any_bytes(r, case);
    let valid = std::str::from_utf8(&raw).is_ok();
    case.count("strings_compared", 1);
    let (z, utf8, alt) = match r.below(5) {
        0 => (ZipString::new(raw.clone(), StringEncoding::Utf8), valid, None),
        1 => (ZipString::new(raw.clone(), StringEncoding::Raw), false, None),
        k if valid => {
            let t = String::from_utf8(raw.clone()).expect("valid");
            match k {
                2 => (ZipString::from(t.as_str()), true, None),
                3 => (ZipString::from(t), true, None),
                _ => {
                    // also the alternatives that say nothing new
                    let a = match r.below(6) {
                        0 => raw.clone(),
                        1 => vec![],
                        2 => raw[..r.below(raw.len() + 1)].to_vec(),
                        _ => any_bytes(r, case),
                    };
                    case.count("equal_alternatives", (a == raw) as u64);
                    (ZipString::new_with_alternative(t, a.clone()), true, Some(a))
                }
            }
        }
        _ => (ZipString::new(raw.clone(), StringEncoding::Utf8), false, None),
    };
    model(&z, &raw, utf8, alt.as_deref(), "a string")?;
    let z = if r.chance(1, 3) { z.clone() } else { z };
    Ok((z, Str { raw, utf8, alt }))
}

fn codes(case: &mut Case) -> Verdict {
    for n in 0..=u16::MAX {
        let known = matches!(n, 0 | 8 | 9 | 12 | 14 | 93 | 95);
        match Compression::try_from(n) {
            Ok(c) => {
                ensure!(known && u16::from(c) == n && u16::from(&c) == n, "method {n} converts to {c:?} and back to {}", u16::from(c));
                ensure!(c == gen::method(n), "method {n} converts to {c:?}");
            }
            Err(ZipError::CompressionNotSupported(k)) => ensure!(!known && k == n, "method {n} is refused as {k}"),
            Err(e) => bail!("method {n} is refused with {e:?}"),
        }
        match AttributeCompatibility::try_from(n) {
            Ok(c) => ensure!(n == 3 && u16::from(c) == 3 && u16::from(&c) == 3, "host system {n} converts to {c:?}"),
            Err(ZipError::AttributeCompatibilityNotSupported(k)) => ensure!(n != 3 && k == n, "host system {n} is refused as {k}"),
            Err(e) => bail!("host system {n} is refused with {e:?}"),
        }
        case.eval();
        case.count("codes_compared", 2);
    }
    Ok(())
}

struct Model {
    v: EntryView,
    extra: String,
    /// The compression option last given.
    option: Option<i32>,
}

fn option(k: i32) -> async_zip::DeflateOption {
    match k {
        -1 => async_zip::DeflateOption::Normal,
        -2 => async_zip::DeflateOption::Maximum,
        -3 => async_zip::DeflateOption::Super,
        k => async_zip::DeflateOption::Other(k),
    }
}

/// The option shows in what the entry's data are compressed to.
fn effect(case: &mut Case, r: &mut Rng, e: &ZipEntry, m: &Model) -> Verdict {
    if !matches!(m.v.method, 0 | 8 | 93) {
        return Ok(());
    }
    let data: Vec<u8> = (0..r.range(1500, 3000)).scan(r.u32() | 1, |s, i| {
        *s = s.wrapping_mul(1664525).wrapping_add(1013904223);
        Some(if i % 7 < 4 { (i / 11) as u8 } else { (*s >> 24) as u8 & 7 })
    }).collect();
    let mut b = ZipEntryBuilder::new("plain".into(), gen::method(m.v.method));
    if let Some(k) = m.option {
        b = b.deflate_option(option(k));
    }
    let (got, want) = run(async { (async_zip::base::write::compress(e, &data).await, async_zip::base::write::compress(&b.build(), &data).await) });
    ensure!(got == want, "method {} with the option {:?}: data compress to {} bytes instead of {}", m.v.method, m.option, got.len(), want.len());
    case.count("options_observed", 1);
    Ok(())
}

fn compare(e: &ZipEntry, m: &Model, w: &str) -> Verdict {
    let got = EntryView::of(e);
    ensure!(got == m.v, "{w}: reported {got:?}, given {:?}", m.v);
    ensure!(e.attribute_compatibility() == AttributeCompatibility::Unix, "{w}: host system");
    let x = format!("{:?}", e.extra_fields());
    ensure!(x == m.extra, "{w}: extra fields {x}, given {}", m.extra);
    let t = e.filename();
    model(t, &m.v.name.raw, m.v.name.utf8, m.v.name.alt.as_deref(), &format!("{w}: the name"))?;
    match e.dir() {
        Ok(d) => ensure!(m.v.name.utf8 && d == (m.v.name.raw.last() == Some(&b'/')), "{w}: directory is {d}"),
        Err(ZipError::StringNotUtf8) => ensure!(!m.v.name.utf8, "{w}: directory is refused"),
        Err(x) => bail!("{w}: directory is refused with {x:?}"),
    }
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    if case.idx == 0 {
        return codes(case);
    }
    let mut r = case.rng.fork();
    // A listed entry to start from or to take extra fields of.
    let l = Limits { entries: 3, content: 60, name: 30, plain_names: false };
    let mut listed: Option<ZipFile> = None;
    if r.chance(1, 4) {
        let mut p = gen::program(&mut r, &l);
        for s in &mut p.entries {
            if matches!(s.method, 14 | 95 | 12) {
                s.method = 8;
            }
        }
        let z = run(ZipFileReader::new(gen::archive(&p)?)).map_err(|e| format!("cannot be opened: {e:?}"))?;
        let f = z.file();
        // The archive's own description.
        let b = ZipFileBuilder::from(f.clone());
        let (c, m) = string(case, &mut r)?;
        let f2: ZipFile = if r.chance(1, 2) { b.comment(c).build() } else { b.comment(c).into() };
        ensure!(Str::of(f2.comment()) == m, "archive comment {:?}, given {m:?}", f2.comment());
        ensure!(f2.zip64() == f.zip64() && f2.entries().len() == f.entries().len(), "setting the comment changed more");
        for (a, b) in f.entries().iter().zip(f2.entries()) {
            ensure!(EntryView::of(a) == EntryView::of(b) && a.header_offset() == b.header_offset() && a.header_size() == b.header_size(), "setting the comment changed an entry");
        }
        let f3 = ZipFileBuilder::new().build();
        ensure!(f3.entries().is_empty() && !f3.zip64() && Str::of(f3.comment()) == Str::text(""), "a new archive description is not empty");
        case.count("files_compared", 1);
        listed = Some(f.clone());
    }
    let start = listed.as_ref().and_then(|f| if f.entries().is_empty() || r.chance(1, 4) { None } else { Some(f.entries()[r.below(f.entries().len())].clone()) });
    let (mut b, mut m) = match start {
        Some(e) => {
            case.count("entries_edited_from_archives", 1);
            let e: ZipEntry = (*e).clone();
            let m = Model { v: EntryView::of(&e), extra: format!("{:?}", e.extra_fields()), option: None };
            (ZipEntryBuilder::from(e), m)
        }
        None => {
            let (z, s) = string(case, &mut r)?;
            let k = *r.pick(&[0u16, 8, 9, 12, 14, 93, 95]);
            let b = ZipEntryBuilder::new(z, gen::method(k));
            let dir = if s.utf8 { Some(s.raw.last() == Some(&b'/')) } else { None };
            let v = EntryView { name: s, comment: Str::text(""), method: k, crc: 0, csize: 0, usize: 0, date: (1980, 0, 0, 0, 0, 0), iattr: 0, eattr: 0, perm: Some(0), dir };
            (b, Model { v, extra: "[]".into(), option: None })
        }
    };
    compare(b.current(), &m, "at first")?;
    let mut log: Vec<u8> = vec![];
    let n = if r.chance(1, 10) { r.range(20, 60) } else { r.range(1, 12) };
    for step in 0..n {
        let op = r.below(15);
        log.push(op as u8);
        let what;
        b = match op {
            0 => {
                let (z, s) = string(case, &mut r)?;
                what = format!("filename({})", s.short());
                m.v.dir = if s.utf8 { Some(s.raw.last() == Some(&b'/')) } else { None };
                m.v.name = s;
                b.filename(z)
            }
            1 => {
                m.v.method = *r.pick(&[0u16, 8, 9, 12, 14, 93, 95]);
                what = format!("compression({})", m.v.method);
                b.compression(gen::method(m.v.method))
            }
            2 => {
                m.v.crc = r.u32();
                what = format!("crc32({})", m.v.crc);
                b.crc32(m.v.crc)
            }
            3 => {
                m.v.csize = r.u64() >> r.below(64);
                what = format!("compressed_size({})", m.v.csize);
                b.compressed_size(m.v.csize)
            }
            4 => {
                m.v.usize = r.u64() >> r.below(64);
                what = format!("uncompressed_size({})", m.v.usize);
                b.uncompressed_size(m.v.usize)
            }
            5 => {
                what = "deflate_option".into();
                let k = r.below(16) as i32 - 3;
                m.option = Some(k);
                b.deflate_option(option(k))
            }
            6 => {
                what = "attribute_compatibility".into();
                b.attribute_compatibility(AttributeCompatibility::Unix)
            }
            7 => {
                let (d, t) = (r.u16(), r.u16());
                m.v.date = dos(d, t);
                what = format!("last_modification_date({:?})", m.v.date);
                let (y, mo, d, h, mi, s) = m.v.date;
                b.last_modification_date(ZipDateTimeBuilder::new().year(y).month(mo).day(d).hour(h).minute(mi).second(s).build())
            }
            8 => {
                m.v.iattr = r.u16();
                what = format!("internal_file_attribute({:#x})", m.v.iattr);
                b.internal_file_attribute(m.v.iattr)
            }
            9 => {
                m.v.eattr = if r.chance(1, 3) { r.u32() & 0xFFFF } else { r.u32() };
                m.v.perm = Some((m.v.eattr >> 16) as u16);
                what = format!("external_file_attribute({:#x})", m.v.eattr);
                b.external_file_attribute(m.v.eattr)
            }
            10 => {
                let (z, s) = string(case, &mut r)?;
                what = format!("comment({})", s.short());
                m.v.comment = s;
                b.comment(z)
            }
            11 => {
                let p = *r.pick(&[0u16, 0o644, 0o100644, 0o40755, 0x8000, 0xFFFF, 1]);
                let p = if r.chance(1, 2) { p } else { r.u16() };
                m.v.perm = Some(p);
                m.v.eattr = (p as u32) << 16 | (m.v.eattr & 0xFFFF);
                what = format!("unix_permissions({p:#o})");
                b.unix_permissions(p)
            }
            12 => {
                what = "build and back".into();
                let e: ZipEntry = if r.chance(1, 2) { b.build() } else { b.into() };
                compare(&e, &m, "built")?;
                e.into()
            }
            13 => {
                what = "clone".into();
                let e = b.current().clone();
                compare(b.current(), &m, "cloned from")?;
                ZipEntryBuilder::from(e)
            }
            _ => match listed.as_ref().and_then(|f| f.entries().last()) {
                Some(e) => {
                    what = "extra_fields of a listed entry".into();
                    m.extra = format!("{:?}", e.extra_fields());
                    case.count("extra_fields_moved", 1);
                    b.extra_fields(e.extra_fields().to_vec())
                }
                None => {
                    what = "no extra_fields".into();
                    m.extra = "[]".into();
                    b.extra_fields(vec![])
                }
            },
        };
        case.say(|| format!("{step}: {what}"));
        compare(b.current(), &m, &format!("after call {step}, {what}"))?;
        case.eval();
        case.count("calls_compared", 1);
    }
    if r.chance(1, 4) {
        effect(case, &mut r, b.current(), &m)?;
    }
    log.extend(format!("{:?}", m.v).as_bytes());
    case.distinct(&log);
    let d = format!("{n} calls, then {:?}", m.v.name.short());
    case.sample(|| d);
    Ok(())
}
