//! Metadata round trip, including chains in which entry descriptions read from one archive are written to the next.
use crate::exec::run;
use crate::gen::{self, Call, Limits, Mode, Program, Spec};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{dos, EntryView, FileView, Str};
use crate::zipref::{self, Extra, Synth, SynthEntry};
use crate::{ensure};
use async_zip::base::read::mem::ZipFileReader;
use async_zip::base::write::ZipFileWriter;
use async_zip::{ZipDateTimeBuilder, ZipEntryBuilder};

pub const PROP: Prop = Prop {
    id: "C02",
    level: "exploration",
    rule: "case = random program with hostile metadata (UTF-8/raw/alternative names and comments, all attribute and timestamp bits, archive comment), or a chain of 2..5 archives in which the descriptions read from one generation (the first possibly synthesised, with uninterpreted extra fields) are reused, some edited, with any write call; every generation is read back and compared with a model, extra fields through an independent parser; non-trivial = at least one entry",
    assumptions: &["an alternative equal to the text itself counts as no alternative", "an empty text with a non-empty alternative is outside the claim (the format cannot express it)"],
    cases: |t| t.pick(160000, 5000000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["extra_fields_handed_over", "entries_compared", "generations", "foreign_extra_fields", "later_unicode_fields", "locators_imitated"],
    exhaustive: false,
};

pub fn norm(s: &Str) -> Str {
    let mut s = s.clone();
    if s.alt.as_deref() == Some(&s.raw[..]) {
        s.alt = None;
    }
    s
}

pub fn same_meta(got: &EntryView, want: &EntryView, w: &str) -> Verdict {
    ensure!(norm(&got.name) == norm(&want.name), "{w}: name reads {:?}, written {:?}", got.name, want.name);
    ensure!(norm(&got.comment) == norm(&want.comment), "{w}: comment reads {:?}, written {:?}", got.comment, want.comment);
    ensure!(got.method == want.method, "{w}: method reads {}, written {}", got.method, want.method);
    ensure!(got.date == want.date, "{w}: timestamp reads {:?}, written {:?}", got.date, want.date);
    ensure!(got.iattr == want.iattr, "{w}: internal attribute reads {:#x}, written {:#x}", got.iattr, want.iattr);
    ensure!(got.eattr == want.eattr, "{w}: external attribute reads {:#x}, written {:#x}", got.eattr, want.eattr);
    ensure!(got.perm == want.perm, "{w}: permissions read {:?}, written {:?}", got.perm, want.perm);
    ensure!(got.usize == want.usize && got.crc == want.crc, "{w}: size/CRC read {}/{:#x}, written {}/{:#x}", got.usize, got.crc, want.usize, want.crc);
    ensure!(got.dir == want.dir, "{w}: directory flag reads {:?}, expected {:?}", got.dir, want.dir);
    Ok(())
}

fn check_archive(case: &mut Case, bytes: &[u8], p: &Program, extras: &[Vec<Extra>], gen_no: usize) -> Verdict {
    let z = run(ZipFileReader::new(bytes.to_vec())).map_err(|e| format!("generation {gen_no} cannot be opened: {e:?}; {}", p.describe()))?;
    let f = FileView::of(z.file());
    ensure!(f.entries.len() == p.entries.len(), "generation {gen_no}: {} entries written, {} listed", p.entries.len(), f.entries.len());
    let want = p.comment.clone().unwrap_or_default();
    ensure!(f.comment.raw == want.as_bytes() && f.comment.utf8, "generation {gen_no}: archive comment reads {:?}, written {want:?}", f.comment);
    for (i, (s, e)) in p.entries.iter().zip(&f.entries).enumerate() {
        let w = format!("generation {gen_no}, entry {i} ({})", s.describe());
        same_meta(e, &s.expect(e.csize), &w)?;
        case.count("entries_compared", 1);
        // The content too, so that a copied description never leads to the wrong data.
        let mut v = vec![];
        let r = run(async {
            use futures_lite::io::AsyncReadExt;
            let mut rd = z.reader_without_entry(i).await.map_err(|e| format!("{e:?}"))?;
            rd.read_to_end(&mut v).await.map_err(|e| format!("{e:?}"))
        });
        if let Err(x) = r {
            return Err(format!("{w}: content unreadable: {x}"));
        }
        ensure!(v == s.content, "{w}: content differs");
    }
    // Extra fields the library does not interpret, seen by an independent parser.
    let a = zipref::parse(&bytes.to_vec(), want.len()).map_err(|e| format!("generation {gen_no}: independent parser: {e}; {}", p.describe()))?;
    for (i, c) in a.centrals.iter().enumerate() {
        let got: Vec<Extra> = c.extra.iter().filter(|x| !interpreted(x)).cloned().collect();
        ensure!(got == extras[i], "generation {gen_no}, entry {i}: uninterpreted extra fields are {got:?}, should be {:?}", extras[i]);
        case.count("foreign_extra_fields", extras[i].len() as u64);
        case.count("later_unicode_fields", extras[i].iter().filter(|x| matches!(x.id, 0x6375 | 0x7075)).count() as u64);
    }
    Ok(())
}

/// Fields the library reads and writes itself; Unicode fields only in the version it knows.
pub fn interpreted(x: &Extra) -> bool {
    x.id == 1 || (matches!(x.id, 0x6375 | 0x7075) && x.data.first() == Some(&1))
}

pub fn foreign_extras(r: &mut Rng) -> Vec<Extra> {
    let n = r.below(4);
    (0..n)
        .map(|_| {
            if r.chance(1, 6) {
                // Unicode fields of a version yet to come.
                let k = *r.pick(&[0usize, 1, 3, 4, 9, 60]);
                let mut data = vec![*r.pick(&[0u8, 2, 3, 0x81, 255])];
                data.extend(r.bytes(k));
                return Extra { id: *r.pick(&[0x6375, 0x7075]), data };
            }
            let id = *r.pick(&[0x5455u16, 0x7875, 0xcafe, 0x000a, 0x9901, 0xffff, 0x0000, 0x0002, 0x6374, 0x7076]);
            let k = *r.pick(&[0usize, 0, 1, 4, 5, 9, 24, 200]);
            Extra { id, data: r.bytes(k) }
        })
        .collect()
}

fn case_run(case: &mut Case) -> Verdict {
    let chain = case.idx % 2 == 1;
    let mut r = case.rng.fork();
    let l = Limits { entries: 5, content: 300, name: if r.chance(1, 20) { 2000 } else { 40 }, plain_names: false };
    let mut p = gen::program(&mut r, &l);
    // Codecs are C01's business; keep the heavy ones rare here.
    for s in &mut p.entries {
        if matches!(s.method, 14 | 95) && !r.chance(1, 20) {
            s.method = 8;
        }
    }
    // The directory may end in what looks like a ZIP64 locator.
    if let (Some(s), true) = (p.entries.last_mut(), r.chance(1, 10)) {
        let mut t = gen::string(&mut r, 20, false).raw;
        if std::str::from_utf8(&t).is_err() {
            t = vec![];
        }
        t.extend(gen::locator_like(&mut r));
        let t = Str { raw: t, utf8: true, alt: None };
        if r.chance(1, 3) {
            s.comment = Str::text("");
            s.name = t;
        } else {
            s.comment = t;
        }
        case.count("locators_imitated", 1);
    }
    let mut extras: Vec<Vec<Extra>> = vec![vec![]; p.entries.len()];
    case.say(|| p.describe());
    let mut bytes;
    if chain && r.chance(2, 3) && !p.entries.is_empty() {
        // The first generation comes from elsewhere and brings extra fields along.
        bytes = synth_first(&mut r, &mut p, &mut extras);
    } else {
        bytes = gen::archive(&p)?;
    }
    check_archive(case, &bytes, &p, &extras, 0)?;
    case.eval();
    if !p.entries.is_empty() {
        case.distinct(p.describe().as_bytes());
        let s = p.describe();
        case.sample(|| s);
    }
    if !chain {
        return Ok(());
    }
    for g in 1..=r.range(1, 4) {
        let z = run(ZipFileReader::new(bytes.clone())).map_err(|e| format!("generation {} cannot be opened: {e:?}", g - 1))?;
        let mut np = Program { mode: *r.pick(&[Mode::Auto, Mode::Auto, Mode::Forbid, Mode::Force]), comment: p.comment.clone(), entries: vec![] };
        let mut nx = vec![];
        let mut w = gen::configure(ZipFileWriter::new(Vec::<u8>::new()), &np);
        let n = p.entries.len();
        let picks: Vec<usize> = (0..n).filter(|_| r.chance(7, 8)).collect();
        for &i in &picks {
            let mut s: Spec = p.entries[i].clone();
            let mut b = ZipEntryBuilder::from((**z.file().entries().get(i).expect("listed")).clone());
            s.name = norm(&s.name);
            s.comment = norm(&s.comment);
            // Its extra fields may be handed over explicitly, or be those of another entry.
            let j = if r.chance(1, 4) { r.below(n) } else { i };
            if j != i || r.chance(1, 3) {
                b = b.extra_fields(z.file().entries()[j].extra_fields().to_vec());
                case.count("extra_fields_handed_over", extras[j].len() as u64);
            }
            // The description may be edited on the way.
            if r.chance(1, 3) {
                match r.below(6) {
                    0 => {
                        s.iattr = r.u16();
                        b = b.internal_file_attribute(s.iattr);
                    }
                    1 => {
                        s.eattr = r.u32();
                        s.perm = None;
                        b = b.external_file_attribute(s.eattr);
                    }
                    2 => {
                        let m = r.u16();
                        s.eattr = s.eattr_final();
                        s.perm = Some(m);
                        b = b.unix_permissions(m);
                    }
                    3 => {
                        s.comment = gen::string(&mut r, 30, false);
                        b = b.comment(s.comment.build());
                    }
                    4 => {
                        s.name = gen::string(&mut r, 30, true);
                        b = b.filename(s.name.build());
                    }
                    _ => {
                        s.date = r.u16();
                        s.time = r.u16();
                        let (y, mo, d, h, mi, se) = dos(s.date, s.time);
                        b = b.last_modification_date(ZipDateTimeBuilder::new().year(y).month(mo).day(d).hour(h).minute(mi).second(se).build());
                    }
                }
            }
            s.call = *r.pick(&[Call::Whole, Call::WholePre, Call::Stream, Call::StreamPre]);
            if s.method == 9 {
                s.call = *r.pick(&[Call::WholePre, Call::StreamPre]);
            } else if r.chance(1, 4) {
                s.method = *r.pick(&[0u16, 8, 93]);
                b = b.compression(gen::method(s.method));
            }
            s.content = gen::content(&mut r, 200);
            run(gen::write_entry(&mut w, b.build(), &s)).map_err(|e| format!("generation {g}: copying entry {i} ({}) failed: {e:?}", s.describe()))?;
            np.entries.push(s);
            nx.push(extras[j].clone());
        }
        bytes = run(w.close()).map_err(|e| format!("generation {g}: closing failed: {e:?}"))?;
        p = np;
        extras = nx;
        case.count("generations", 1);
        check_archive(case, &bytes, &p, &extras, g)?;
        case.eval();
    }
    Ok(())
}

/// An archive from another producer with the program's entries; adapts the program to what such an archive can say.
fn synth_first(r: &mut Rng, p: &mut Program, extras: &mut [Vec<Extra>]) -> Vec<u8> {
    let mut sy = Synth::default();
    for (i, s) in p.entries.iter_mut().enumerate() {
        // Only plain UTF-8 or raw strings, both in the same way.
        let utf8 = r.chance(1, 2);
        for t in [&mut s.name, &mut s.comment] {
            if utf8 {
                *t = Str { raw: format!("é{}", r.below(100)).into_bytes(), utf8: true, alt: None };
            } else {
                *t = Str { raw: vec![b'n', 0x80 | r.u8(), r.u8()], utf8: false, alt: None };
            }
        }
        if s.method == 9 {
            s.method = 8;
        }
        extras[i] = foreign_extras(r);
        let mut e = SynthEntry::new(&s.name.raw, s.method, s.content.clone(), 3);
        e.comment = s.comment.raw.clone();
        e.flags = if utf8 { 0x800 } else { 0 };
        e.time = s.time;
        e.date = s.date;
        e.iattr = s.iattr;
        e.eattr = s.eattr_final();
        e.extra_central = extras[i].clone();
        e.extra_local = foreign_extras(r);
        e.z64_central = (r.chance(1, 4), r.chance(1, 4), r.chance(1, 4));
        e.z64_pos = r.below(4);
        sy.entries.push(e);
    }
    if p.entries.iter().any(|_| r.chance(1, 4)) {
        sy.z64_end = true;
        sy.z64_mask = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    }
    sy.comment = p.comment.clone().unwrap_or_default().into_bytes();
    sy.build().0
}
