//! Names and comments under every declared encoding, against an independent model.
use crate::chaos::{Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::zipref::{crc32, Extra, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, stream};
use async_zip::error::ZipError;
use async_zip::{Compression, StringEncoding, ZipEntry, ZipEntryBuilder, ZipString};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C18",
    level: "exploration",
    rule: "case = a synthesised archive of entries whose stored name and comment bytes are ASCII, UTF-8, malformed UTF-8 of every class, legacy bytes or 0..65535 arbitrary bytes, with the UTF-8 flag set or not and 0..3 Unicode extra fields (right, wrong or other checksum, versions, valid and malformed text, central and local ones differing), read through the in-memory, seekable, file-system and forward-only readers, plus directly built strings; the first 516 cases enumerate all strings of one and two bytes under both flags; oracle: a decoding model with its own UTF-8 validator; every accessor is compared; non-trivial = every entry; distinct by (bytes, flag, fields)",
    assumptions: &["of several matching Unicode extra fields any one may be used", "Unicode extra fields too short to hold their checksum are malformed archives and outside the claim", "only names are available to the forward-only reader"],
    cases: |t| t.pick(60000, 3000000),
    budget: |t| t.pick(60, 1200),
    threads: 8,
    run: case_run,
    must_observe: &["text_by_flag", "text_by_field", "text_by_ascii", "raw_by_flag", "raw_plain", "directories", "built_strings", "stream_names", "two_byte_strings", "fs_archives"],
    exhaustive: false,
};

/// UTF-8 as Unicode table 3-7 defines it.
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = |k: usize| b.get(i + k).copied().unwrap_or(0);
        let cont = |k: usize| (0x80..=0xBF).contains(&c(k));
        i += match b[i] {
            0x00..=0x7F => 1,
            0xC2..=0xDF if cont(1) => 2,
            0xE0 if (0xA0..=0xBF).contains(&c(1)) && cont(2) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if cont(1) && cont(2) => 3,
            0xED if (0x80..=0x9F).contains(&c(1)) && cont(2) => 3,
            0xF0 if (0x90..=0xBF).contains(&c(1)) && cont(2) && cont(3) => 4,
            0xF1..=0xF3 if cont(1) && cont(2) && cont(3) => 4,
            0xF4 if (0x80..=0x8F).contains(&c(1)) && cont(2) && cont(3) => 4,
            _ => return false,
        };
    }
    true
}

#[derive(Clone, Debug, PartialEq)]
pub struct Want {
    text: bool,
    bytes: Vec<u8>,
    alt: Option<Vec<u8>>,
    why: &'static str,
}

/// All presentations the model allows (more than one only when several Unicode fields match).
pub fn model(stored: &[u8], flag: bool, id: u16, extra: &[Extra]) -> Vec<Want> {
    let text = |b: &[u8], alt: Option<&[u8]>, why| Want { text: true, bytes: b.to_vec(), alt: alt.map(|a| a.to_vec()), why };
    let raw = |why| Want { text: false, bytes: stored.to_vec(), alt: None, why };
    if flag {
        return vec![if utf8(stored) { text(stored, None, "text_by_flag") } else { raw("raw_by_flag") }];
    }
    let fall = if stored.iter().all(|b| *b < 0x80) { text(stored, None, "text_by_ascii") } else { raw("raw_plain") };
    let matching: Vec<&[u8]> = extra.iter().filter(|e| e.id == id && e.data.len() >= 5 && e.data[0] == 1 && e.data[1..5] == crc32(stored).to_le_bytes()).map(|e| &e.data[5..]).collect();
    let good: Vec<&[u8]> = matching.iter().copied().filter(|t| utf8(t)).collect();
    let mut v: Vec<Want> = good.iter().map(|t| text(t, Some(stored), "text_by_field")).collect();
    if v.is_empty() || good.len() != matching.len() {
        v.push(fall);
    }
    v
}

fn check_string(s: &ZipString, wants: &[Want]) -> Result<&'static str, String> {
    let is_text = matches!(s.encoding(), StringEncoding::Utf8);
    let got = (is_text, s.as_bytes(), s.alternative());
    let Some(w) = wants.iter().find(|w| w.text == is_text && w.bytes == s.as_bytes() && w.alt.as_deref() == s.alternative()) else {
        bail!("presented as {got:?}, should be {wants:?}");
    };
    match s.as_str() {
        Ok(t) => {
            ensure!(is_text, "text is handed out for a raw string");
            ensure!(utf8(t.as_bytes()) && t.as_bytes() == s.as_bytes(), "as_str gives {:?} for {:?}", t.as_bytes(), s.as_bytes());
        }
        Err(ZipError::StringNotUtf8) => ensure!(!is_text, "as_str fails for a text"),
        Err(e) => bail!("as_str fails with {e:?}"),
    }
    match s.clone().into_string() {
        Ok(t) => ensure!(is_text && utf8(t.as_bytes()) && t.as_bytes() == s.as_bytes(), "into_string gives {:?} for {:?}", t.as_bytes(), s.as_bytes()),
        Err(ZipError::StringNotUtf8) => ensure!(!is_text, "into_string fails for a text"),
        Err(e) => bail!("into_string fails with {e:?}"),
    }
    ensure!(s.clone().into_alternative() == w.alt, "into_alternative differs from alternative");
    ensure!(s.is_utf8_without_alternative() == (w.text && w.alt.is_none()), "is_utf8_without_alternative is {}", s.is_utf8_without_alternative());
    Ok(w.why)
}

fn check_dir(e: &ZipEntry) -> Verdict {
    let n = e.filename();
    match e.dir() {
        Ok(d) => ensure!(matches!(n.encoding(), StringEncoding::Utf8) && d == (n.as_bytes().last() == Some(&b'/')), "dir() is {d} for {:?}", n.as_bytes()),
        Err(ZipError::StringNotUtf8) => ensure!(matches!(n.encoding(), StringEncoding::Raw), "dir() fails for the text {:?}", n.as_bytes()),
        Err(x) => bail!("dir() fails with {x:?}"),
    }
    Ok(())
}

fn bad_utf8(r: &mut Rng) -> Vec<u8> {
    let bad: [&[u8]; 16] = [
        &[0xC0, 0x80],
        &[0xC1, 0xBF],
        &[0xE0, 0x80, 0xAF],
        &[0xE0, 0x9F, 0xBF],
        &[0xED, 0xA0, 0x80],
        &[0xED, 0xBF, 0xBF],
        &[0xF0, 0x8F, 0xBF, 0xBF],
        &[0xF4, 0x90, 0x80, 0x80],
        &[0xF5, 0x80, 0x80, 0x80],
        &[0xFF],
        &[0xFE],
        &[0x80],
        &[0xBF],
        &[0xC3],
        &[0xE2, 0x82],
        &[0xF0, 0x9F, 0x8E],
    ];
    r.pick(&bad).to_vec()
}

fn bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(40) {
        0 => 0,
        1 => 65535,
        2 => r.range(1000, 66000).min(65535),
        3..=8 => r.range(60, 300),
        _ => r.range(1, 40),
    };
    let mut v: Vec<u8> = match r.below(8) {
        // ASCII, all values
        0 | 1 => (0..n).map(|_| r.below(128) as u8).collect(),
        // ASCII with one other byte anywhere
        2 => {
            let mut v: Vec<u8> = (0..n.max(1)).map(|_| 0x20 + r.below(0x5f) as u8).collect();
            let i = r.below(v.len());
            v[i] = 0x80 | r.u8();
            v
        }
        // valid UTF-8
        3 | 4 => {
            let mut s = String::new();
            while s.len() + 4 < n {
                let c = match r.below(5) {
                    0 => r.below(0x80) as u32,
                    1 => *r.pick(&[0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF]),
                    2 => r.range(0x80, 0x7ff) as u32,
                    3 => r.range(0x800, 0xD7FF) as u32,
                    _ => r.range(0x10000, 0x10FFFF) as u32,
                };
                s.push(char::from_u32(c).unwrap());
            }
            s.into_bytes()
        }
        // valid but for one place
        5 | 6 => {
            let mut v: Vec<u8> = (0..n / 2).map(|_| b'a' + r.below(26) as u8).collect();
            v.extend("é中🎉".as_bytes());
            let bad = bad_utf8(r);
            let mut at = r.below(v.len() + 1);
            while at < v.len() && v[at] & 0xC0 == 0x80 {
                at += 1;
            }
            v.splice(at..at, bad);
            v
        }
        _ => r.bytes(n),
    };
    if r.chance(1, 6) {
        let tail: &[u8] = r.pick(&[&b"/"[..], b"//", b"\\", b"/ ", b"/\0", &[0xC3, b'/'], "é/".as_bytes()]);
        v.extend(tail);
    }
    v.truncate(65535);
    v
}

fn fields(r: &mut Rng, name: &[u8], comment: &[u8]) -> Vec<Extra> {
    let n = *r.pick(&[0usize, 0, 0, 1, 1, 1, 2, 3]);
    let mut room = 60000usize;
    let mut out = vec![];
    for _ in 0..n {
        let path = r.chance(1, 2);
        let id = if r.chance(1, 12) { 0x7876 } else if path { 0x7075 } else { 0x6375 };
        let own = if path { name } else { comment };
        let version = *r.pick(&[1u8, 1, 1, 1, 1, 1, 0, 2, 255]);
        let mut t = if r.chance(1, 8) { own.to_vec() } else { bytes(r) };
        if r.chance(1, 2) && !utf8(&t) {
            t = r.pick(&["", "über", "übersetzt/名前", "d/"]).as_bytes().to_vec();
        }
        t.truncate(room.saturating_sub(9));
        let crc = match r.below(10) {
            0..=5 => crc32(own),
            6 => crc32(if path { comment } else { name }),
            7 => crc32(&t),
            8 => crc32(own) ^ (1 << r.below(32)),
            _ => 0,
        };
        let mut d = vec![version];
        d.extend(crc.to_le_bytes());
        d.extend(&t);
        room = room.saturating_sub(d.len() + 4);
        out.push(Extra { id, data: d });
    }
    out
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let mut sy = Synth::default();
    let idx = case.idx as usize;
    if idx < 2 * 258 {
        // All strings of one or two bytes: case k holds those beginning with byte k/2 (or being a single byte).
        let flag = idx % 2 == 1;
        let k = idx / 2;
        for b in 0..256usize {
            let s: Vec<u8> = match k {
                0..=255 => vec![k as u8, b as u8],
                256 => vec![b as u8],
                _ => continue,
            };
            let mut e = SynthEntry::new(&s, 0, vec![], 1);
            e.comment = s;
            e.flags = if flag { 0x800 } else { 0 };
            sy.entries.push(e);
            case.count("two_byte_strings", 1);
        }
    } else {
        for _ in 0..r.range(1, 12) {
            let name = bytes(&mut r);
            let len = r.below(20);
            let mut e = SynthEntry::new(&name, *r.pick(&[0u16, 0, 8]), r.bytes(len), 1);
            e.comment = if r.chance(1, 10) { name.clone() } else { bytes(&mut r) };
            e.flags = if r.chance(1, 2) { 0x800 } else { 0 } | if r.chance(1, 8) { *r.pick(&[2u16, 4, 6, 0x400, 0x1000]) } else { 0 };
            e.extra_central = fields(&mut r, &e.name, &e.comment);
            e.extra_local = if r.chance(1, 2) { e.extra_central.clone() } else { fields(&mut r, &e.name, &e.comment) };
            e.made_by = *r.pick(&[0x0314u16, 0x0014, 0x0b14, 0x133f]);
            sy.entries.push(e);
        }
    }
    let data = Arc::new(sy.build().0);
    // Random access; the three readers take turns.
    let listing: Vec<ZipEntry> = match r.below(4) {
        0 => {
            let (src, _) = Source::new(data.clone(), Schedule { max_chunk: r.range(1, 3000), vary: true, pending: 20, wake_now: 128, burst: 1 }, r.fork());
            let z = run(seek::ZipFileReader::new(src)).map_err(|e| format!("cannot be opened: {e:?}"))?;
            z.file().entries().iter().map(|e| (**e).clone()).collect()
        }
        1 if idx % 16 == 5 => {
            let f = super::c01::scratch_file("c18");
            super::write_scratch(&f, &data);
            let z = run_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&f)).map_err(|e| format!("cannot be opened: {e:?}"))?;
            case.count("fs_archives", 1);
            z.file().entries().iter().map(|e| (**e).clone()).collect()
        }
        _ => {
            let z = run(mem::ZipFileReader::new(data.to_vec())).map_err(|e| format!("cannot be opened: {e:?}"))?;
            z.file().entries().iter().map(|e| (**e).clone()).collect()
        }
    };
    ensure!(listing.len() == sy.entries.len(), "{} of {} entries listed", listing.len(), sy.entries.len());
    for (i, (g, e)) in listing.iter().zip(&sy.entries).enumerate() {
        let flag = e.flags & 0x800 != 0;
        let w = |f: &str, m: String| format!("entry {i}, {f}, UTF-8 flag {flag}, fields {:?}: {m}", e.extra_central);
        let a = check_string(g.filename(), &model(&e.name, flag, 0x7075, &e.extra_central)).map_err(|m| w("name", m))?;
        let b = check_string(g.comment(), &model(&e.comment, flag, 0x6375, &e.extra_central)).map_err(|m| w("comment", m))?;
        check_dir(g).map_err(|m| w("name", m))?;
        if let Ok(true) = g.dir() {
            case.count("directories", 1);
        }
        case.count(a, 1);
        case.count(b, 1);
        case.eval();
        let key = format!("{flag}{:?}", e.extra_central);
        case.distinct(&[&e.name[..], b"|", &e.comment, key.as_bytes()].concat());
    }
    // Forward only: names, with the local fields.
    let names: Vec<ZipEntry> = run(async {
        let mut v = vec![];
        let mut z = stream::ZipFileReader::new(futures_lite::io::Cursor::new(&data[..]));
        while let Some(mut rd) = z.next_with_entry().await? {
            v.push(rd.reader_mut().entry().clone());
            z = rd.skip().await?;
        }
        Ok(v)
    })
    .map_err(|e: ZipError| format!("forward reading fails: {e:?}"))?;
    ensure!(names.len() == sy.entries.len(), "forward reading yields {} of {} entries", names.len(), sy.entries.len());
    for (i, (g, e)) in names.iter().zip(&sy.entries).enumerate() {
        let flag = e.flags & 0x800 != 0;
        let w = |m: String| format!("forward reading, entry {i}, UTF-8 flag {flag}, fields {:?}: {m}", e.extra_local);
        check_string(g.filename(), &model(&e.name, flag, 0x7075, &e.extra_local)).map_err(w)?;
        check_dir(g).map_err(w)?;
        case.count("stream_names", 1);
        case.eval();
    }
    // Strings built by hand.
    for e in &sy.entries {
        for b in [&e.name, &e.comment] {
            let t = |text: bool, alt: Option<Vec<u8>>| vec![Want { text, bytes: b.clone(), alt, why: "" }];
            let u = ZipString::new(b.clone(), StringEncoding::Utf8);
            check_string(&u, &t(utf8(b), None)).map_err(|m| format!("ZipString::new as UTF-8: {m}"))?;
            check_string(&ZipString::new(b.clone(), StringEncoding::Raw), &t(false, None)).map_err(|m| format!("ZipString::new as raw: {m}"))?;
            let entry = ZipEntryBuilder::new(u, Compression::Stored).build();
            check_dir(&entry)?;
            if utf8(b) {
                let s = String::from_utf8(b.clone()).map_err(|_| "harness: UTF-8 validator".to_string())?;
                check_string(&ZipString::from(s.clone()), &t(true, None)).map_err(|m| format!("from String: {m}"))?;
                check_string(&ZipString::from(&s[..]), &t(true, None)).map_err(|m| format!("from str: {m}"))?;
                check_string(&ZipString::new_with_alternative(s, e.name.clone()), &t(true, Some(e.name.clone()))).map_err(|m| format!("with alternative: {m}"))?;
            } else {
                ensure!(String::from_utf8(b.clone()).is_err(), "harness: UTF-8 validator");
            }
            case.count("built_strings", 1);
        }
    }
    let s = sy.entries.iter().map(|e| format!("{:02x?}{}", &e.name[..e.name.len().min(12)], if e.flags & 0x800 != 0 { " flagged" } else { "" })).collect::<Vec<_>>().join(", ");
    case.sample(|| s);
    Ok(())
}
