//! Structural validity of produced archives, by a strict independent parser and an independent implementation.
use crate::gen::{self, Limits, Mode, Program};
use crate::report::{Case, Prop, Verdict};
use crate::view::Str;
use crate::zipref::{self, DescForm};
use crate::{bail, ensure};
use std::io::Read;

pub const PROP: Prop = Prop {
    id: "C04",
    level: "exploration",
    rule: "case = random write program; the produced bytes are parsed by a strict independent parser (contiguous layout, all counts, offsets, sizes, CRCs, flags, ZIP64 fields, descriptors), every entry's raw data is decoded by the codec libraries, and the zip crate opens the archive and extracts names and contents; non-trivial = at least one entry; distinct by archive bytes",
    assumptions: &["zip 4.x and the codec libraries as independent implementations", "all calls of the program succeed (gaps left by refused entries are C13/C15)", "Deflate64 entries are decoded by the harness"],
    cases: |t| t.pick(100000, 3000000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["entries_parsed", "entries_extracted_by_zip", "descriptors_classic", "descriptors_zip64", "zip64_end_records"],
    exhaustive: false,
};

/// Strict structural check of an archive all of whose calls succeeded.
pub fn strict(bytes: &Vec<u8>, p: &Program) -> Result<(zipref::Archive, Vec<DescForm>), String> {
    let comment = p.comment.clone().unwrap_or_default();
    let a = zipref::parse(bytes, comment.len())?;
    ensure!(a.comment == comment.as_bytes(), "archive comment differs");
    ensure!(a.centrals.len() == p.entries.len(), "{} entries written, {} recorded", p.entries.len(), a.centrals.len());
    let forms = zipref::check_layout(bytes, &a, false)?;
    zipref::check_versions(&a)?;
    for (i, (s, c)) in p.entries.iter().zip(&a.centrals).enumerate() {
        let w = |m: String| format!("entry {i} ({}): {m}", s.describe());
        ensure!(c.name == s.name.stored(), "{}", w(format!("name bytes {:?}", c.name)));
        ensure!(c.comment == s.comment.stored(), "{}", w(format!("comment bytes {:?}", c.comment)));
        ensure!(c.method == s.method, "{}", w(format!("method {}", c.method)));
        ensure!(c.flags & !0x808 == 0, "{}", w(format!("flags {:#x}", c.flags)));
        ensure!((c.flags & 8 != 0) == s.call.streamed(), "{}", w(format!("flags {:#x}", c.flags)));
        if c.flags & 0x800 != 0 {
            ensure!(std::str::from_utf8(&c.name).is_ok() && std::str::from_utf8(&c.comment).is_ok(), "{}", w("UTF-8 flag on other bytes".into()));
            ensure!(s.name.utf8 && s.comment.utf8 && s.name.alt.is_none() && s.comment.alt.is_none(), "{}", w("UTF-8 flag although not all text is stored as UTF-8".into()));
        }
        let least = [(8u16, 20u16), (9, 21), (12, 46), (14, 63)].iter().find(|x| x.0 == s.method).map_or(10, |x| x.1).max(if s.name.utf8 && s.name.alt.is_none() && s.name.raw.ends_with(b"/") { 20 } else { 10 });
        ensure!(c.needed >= least, "{}", w(format!("version needed to extract {} of at least {least}", c.needed)));
        ensure!(c.made_by >> 8 == 3, "{}", w(format!("version made by {:#x}, but the attributes are those of Unix", c.made_by)));
        ensure!(c.date == s.date && c.time == s.time, "{}", w(format!("timestamp {:#x} {:#x}", c.date, c.time)));
        ensure!(c.iattr == s.iattr && c.eattr == s.eattr_final(), "{}", w("attributes differ".into()));
        ensure!(c.usize == s.content.len() as u64, "{}", w(format!("uncompressed size {}", c.usize)));
        ensure!(c.crc == zipref::crc32(&s.content), "{}", w(format!("CRC {:#x}", c.crc)));
        let l = &a.locals[i];
        let raw = &bytes[l.data_off as usize..(l.data_off + c.csize) as usize];
        let d = zipref::decompress(s.method, raw);
        match d {
            Err(e) => bail!("{}", w(format!("the {} bytes of data do not decode: {e}", raw.len()))),
            Ok(d) => ensure!(d == s.content, "{}", w("the data decode to other content".into())),
        }
        if p.mode == Mode::Forbid {
            ensure!(c.extra.iter().chain(&l.extra).all(|x| x.id != 1), "{}", w("ZIP64 field although ZIP64 is forbidden".into()));
        }
    }
    match p.mode {
        Mode::Forbid => ensure!(a.z64.is_none(), "ZIP64 end records although ZIP64 is forbidden"),
        Mode::Force => ensure!(a.z64.is_some(), "no ZIP64 end records although ZIP64 is forced"),
        Mode::Auto => {}
    }
    Ok((a, forms))
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let l = Limits { entries: 7, content: if r.chance(1, 60) { 500_000 } else { 6_000 }, name: 40, plain_names: false };
    let mut p = gen::program(&mut r, &l);
    // The LZMA known finding is observed on a few cases only.
    for s in &mut p.entries {
        if s.method == 14 && !r.chance(1, 10) {
            s.method = 8;
        }
    }
    // The zip crate verifies the Unicode comment field against the decoded instead of the stored comment, so it refuses
    // archives whose legacy comment is not ASCII; most programs therefore avoid that, the others skip that leg.
    let exotic_comment = |s: &gen::Spec| s.comment.utf8 && !s.comment.stored().is_ascii() && (s.comment.alt.is_some() || s.name.alt.is_some() || !s.name.utf8);
    if !r.chance(1, 8) {
        for s in &mut p.entries {
            if exotic_comment(s) {
                s.comment = if s.comment.alt.is_some() { Str { alt: Some(b"legacy comment".to_vec()), ..s.comment.clone() } } else { Str::text("plain") };
            }
        }
    }
    let zip_leg = !p.entries.iter().any(exotic_comment);
    case.say(|| p.describe());
    let bytes = gen::archive(&p)?;
    let (a, forms) = strict(&bytes, &p).map_err(|e| format!("{e}; {}", p.describe()))?;
    case.eval();
    case.count("entries_parsed", a.centrals.len() as u64);
    case.count("zip64_end_records", a.z64.is_some() as u64);
    for f in &forms {
        match f {
            DescForm::Classic => case.count("descriptors_classic", 1),
            DescForm::Zip64 => case.count("descriptors_zip64", 1),
            DescForm::Masked => bail!("data descriptor of a ZIP64 entry carries 0xFFFFFFFF instead of the sizes; {}", p.describe()),
            DescForm::None => {}
        }
    }
    for (i, s) in p.entries.iter().enumerate() {
        // APPNOTE 5.8.8: two bytes of version, two bytes of property size (5), the properties, then the raw stream.
        if s.method == 14 && matches!(s.call, gen::Call::Whole | gen::Call::Stream) {
            let o = a.locals[i].data_off as usize;
            if bytes.get(o + 2..o + 4) != Some(&[5, 0]) {
                case.finding("lzma-alone-format", "written LZMA entries carry an LZMA-alone stream instead of the LZMA header of APPNOTE 5.8.8".into())?;
            }
        }
    }
    if !p.entries.is_empty() {
        case.distinct(&bytes);
        let d = p.describe();
        case.sample(|| d);
    }
    // The independent implementation.
    if !zip_leg {
        return Ok(());
    }
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(&bytes)).map_err(|e| format!("zip crate cannot open the archive: {e}; {}", p.describe()))?;
    ensure!(z.len() == p.entries.len() || has_duplicate_names(&p), "zip crate lists {} of {} entries; {}", z.len(), p.entries.len(), p.describe());
    if has_duplicate_names(&p) {
        return Ok(());
    }
    for (i, s) in p.entries.iter().enumerate() {
        let w = format!("zip crate, entry {i} ({})", s.describe());
        if s.method == 9 {
            continue;
        }
        let mut f = match z.by_index(i) {
            Ok(f) => f,
            Err(e) => bail!("{w}: {e}"),
        };
        ensure!(f.name_raw() == s.name.stored() || f.name_raw() == s.name.raw, "{w}: name {:?}", f.name_raw());
        if s.name.utf8 {
            let t = std::str::from_utf8(&s.name.raw).unwrap();
            ensure!(f.name() == t, "{w}: name reads {:?}", f.name());
        }
        let mut d = vec![];
        match f.read_to_end(&mut d) {
            Ok(_) => ensure!(d == s.content, "{w}: extracted content differs"),
            Err(e) => bail!("{w}: {e}"),
        }
        case.count("entries_extracted_by_zip", 1);
    }
    Ok(())
}

fn has_duplicate_names(p: &Program) -> bool {
    let mut n: Vec<&[u8]> = p.entries.iter().flat_map(|s| if s.name.alt.is_some() { vec![s.name.stored(), &s.name.raw[..]] } else { vec![s.name.stored()] }).collect();
    let k = n.len();
    n.sort();
    n.dedup();
    n.len() != k
}
