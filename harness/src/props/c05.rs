//! Conforming archives of other producers: synthesised from a model by an independent emitter, or made by the zip crate.
use crate::chaos::{Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::gen;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{self, dos, ArchiveView, How, Str};
use crate::zipref::{self, Desc, Extra, Layout, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::mem::ZipFileReader;
use async_zip::base::write::ZipFileWriter;
use async_zip::{Compression, ZipEntryBuilder};
use std::io::Write;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C05",
    level: "exploration",
    rule: "case = a conforming archive synthesised from a random model (0..7 entries, 7 methods, every header field random, local extra fields differing from central ones, every ZIP64 masking combination incl. disk number, ZIP64 end records with every mask and extensible data, 5 data descriptor forms, gaps, shuffled directory), or one made by the zip crate (seekable or streaming writer); listed and extracted by the in-memory, seekable and file-system readers and compared with the model; non-trivial = at least one entry; distinct by archive bytes",
    assumptions: &["the synthesiser implements APPNOTE 6.3.10", "attribute compatibility is documented by the crate as always Unix"],
    cases: |t| t.pick(60000, 2000000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["zstd_frames", "entries_listed", "zip64_end_records", "zip64_central_fields", "descriptors", "gaps", "shuffled_directories", "zip_crate_archives", "zip_crate_streamed", "extra_fields_reemitted"],
    exhaustive: false,
};

/// A random conforming archive within the supported feature set.
pub fn conforming(r: &mut Rng, max_entries: usize, max_content: usize) -> Synth {
    let n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        _ => r.range(1, max_entries),
    };
    let mut sy = Synth::default();
    for i in 0..n {
        let m = *r.pick(&[0u16, 0, 0, 8, 8, 8, 9, 12, 93, 93, 95, 14]);
        let m = if matches!(m, 14 | 95) && !r.chance(1, 3) { 8 } else { m };
        let c = gen::content(r, max_content);
        let lv = r.range(1, 9) as u32;
        let nm = match r.below(6) {
            0 => vec![],
            1 => {
                let k = r.range(1, 30);
                r.bytes(k)
            }
            2 => {
                let k = r.range(200, 3000);
                vec![b'n'; k]
            }
            3 => format!("dir{i}/").into_bytes(),
            _ => format!("dir/entry {i} é").into_bytes(),
        };
        let mut e = SynthEntry::new(&nm, m, c, lv);
        if m == 93 && r.chance(1, 2) {
            e.cdata = zipref::zstd_frames(&e.content, r);
            e.framed = true;
        }
        e.flags = *r.pick(&[0u16, 0x800, 0, 0x800, 0x802, 0x004, 0x006]);
        if e.flags & 0x800 != 0 && std::str::from_utf8(&e.name).is_err() {
            e.flags &= !0x800;
        }
        e.date = r.u16();
        e.time = r.u16();
        e.made_by = r.u16();
        e.needed = *r.pick(&[10u16, 20, 45, 46, 51, 63]);
        e.iattr = r.u16();
        e.eattr = r.u32();
        e.extra_local = super::c02::foreign_extras(r);
        if r.chance(1, 80) {
            // Up to all that fits in beside a ZIP64 field.
            let k = *r.pick(&[32763usize, 32764, 40_000, 65_535 - 4 - 32]);
            e.extra_local = vec![Extra { id: 0xcafe, data: r.bytes(k) }];
        }
        e.extra_central = if r.chance(1, 2) { e.extra_local.clone() } else { super::c02::foreign_extras(r) };
        if r.chance(1, 2) {
            let k = *r.pick(&[0usize, 1, 10, 400, 5000]);
            e.comment = if e.flags & 0x800 != 0 { vec![b'c'; k] } else { r.bytes(k) };
        }
        if r.chance(1, 2) {
            e.desc = *r.pick(&[Desc::Sig, Desc::NoSig, Desc::Sig64, Desc::NoSig64]);
            e.z64_local = matches!(e.desc, Desc::Sig64 | Desc::NoSig64);
            e.local_values = r.chance(1, 4);
        } else {
            e.z64_local = r.chance(1, 4);
        }
        if r.chance(1, 2) {
            e.z64_central = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
            e.z64_disk = r.chance(1, 4);
            e.z64_pos = r.below(4);
        }
        if r.chance(1, 4) {
            let k = r.range(1, 60);
            e.gap_before = r.bytes(k);
            if r.chance(1, 3) {
                // a deleted entry whose local header is still there
                let old = Synth { entries: vec![SynthEntry::new(b"deleted", 0, b"old data".to_vec(), 1)], ..Default::default() }.build();
                e.gap_before = old.0[..old.1.cd_off as usize].to_vec();
            }
        }
        sy.entries.push(e);
    }
    if r.chance(1, 3) {
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, r.below(i + 1));
        }
        sy.order = order;
    }
    if r.chance(1, 6) {
        let k = r.range(1, 50);
        sy.gap_before_cd = r.bytes(k);
    }
    sy.comment = match r.below(4) {
        0 => gen::string(r, 40, false).raw,
        1 => {
            let k = r.range(1, 3000);
            vec![b'z'; k]
        }
        _ => vec![],
    };
    if r.chance(1, 2) {
        sy.z64_end = true;
        sy.z64_mask = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
        sy.z64_mask_disk = (r.chance(1, 4), r.chance(1, 4));
        sy.z64_here_differs = r.chance(1, 4);
        if r.chance(1, 3) {
            let k = r.range(1, 40);
            sy.z64_ext = r.bytes(k);
        }
    }
    sy
}

/// The listing and contents the readers have to deliver.
pub fn compare(sy: &Synth, lay: &Layout, v: &ArchiveView, reader: &str) -> Verdict {
    let order: Vec<usize> = if sy.order.is_empty() { (0..sy.entries.len()).collect() } else { sy.order.clone() };
    ensure!(v.file.entries.len() == order.len(), "{reader}: {} entries listed, the archive has {}", v.file.entries.len(), order.len());
    ensure!(v.file.zip64 == sy.z64_end, "{reader}: zip64 is reported as {}, end records present: {}", v.file.zip64, sy.z64_end);
    ensure!(v.file.comment.raw == sy.comment, "{reader}: archive comment reads {:?}, stored {:?}", v.file.comment, sy.comment);
    for (k, &i) in order.iter().enumerate() {
        let (e, g) = (&sy.entries[i], &v.file.entries[k]);
        let w = format!("{reader}: entry {k} ({:?} m{} {}B desc {:?} z64 {:?}/{}/disk {})", String::from_utf8_lossy(&e.name).chars().take(20).collect::<String>(), e.method, e.content.len(), e.desc, e.z64_central, e.z64_local, e.z64_disk);
        ensure!(g.name.stored() == e.name, "{w}: name reads {:?}", g.name);
        ensure!(g.comment.stored() == e.comment, "{w}: comment reads {:?}", g.comment);
        if e.flags & 0x800 != 0 {
            ensure!(g.name.utf8 && g.comment.utf8, "{w}: flagged UTF-8 but not presented as text");
        } else {
            ensure!(g.name.utf8 == e.name.is_ascii(), "{w}: unflagged name presented as {:?}", g.name);
        }
        ensure!(g.method == e.method, "{w}: method reads {}", g.method);
        ensure!(g.crc == e.crc, "{w}: CRC reads {:#x}, recorded {:#x}", g.crc, e.crc);
        ensure!(g.usize == e.content.len() as u64, "{w}: uncompressed size reads {}", g.usize);
        ensure!(g.csize == e.cdata.len() as u64, "{w}: compressed size reads {}, recorded {}", g.csize, e.cdata.len());
        ensure!(g.date == dos(e.date, e.time), "{w}: timestamp reads {:?}", g.date);
        ensure!(g.iattr == e.iattr, "{w}: internal attribute reads {:#x}, recorded {:#x}", g.iattr, e.iattr);
        ensure!(g.eattr == e.eattr, "{w}: external attribute reads {:#x}, recorded {:#x}", g.eattr, e.eattr);
        ensure!(v.file.offsets[k].0 == lay.local[i], "{w}: header offset reads {}, recorded {}", v.file.offsets[k].0, lay.local[i]);
        let z = {
            let (a, b, c) = e.z64_central;
            let n = 8 * (a as u64 + b as u64 + c as u64) + 4 * e.z64_disk as u64;
            if n > 0 { n + 4 } else { 0 }
        };
        let x: u64 = e.extra_central.iter().map(|x| 4 + x.data.len() as u64).sum::<u64>() + z;
        let hs = 30 + e.name.len() as u64 + x;
        ensure!(v.file.offsets[k].1 == hs, "{w}: header size reads {}, recorded lengths give {hs}", v.file.offsets[k].1);
        match &v.contents[k] {
            Err(x) => bail!("{w}: extraction failed: {x}"),
            Ok(d) => ensure!(*d == e.content, "{w}: extracted content differs ({} bytes of {})", d.len(), e.content.len()),
        }
    }
    Ok(())
}

pub fn how_plan<'a>(r: &'a mut Rng) -> impl FnMut(usize) -> (bool, How, bool) + 'a {
    move |_| {
        let h = How::random(r);
        (r.chance(2, 3), if matches!(h, How::Text) { How::Checked } else { h }, false)
    }
}

pub fn synth_case(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let mc = if r.chance(1, 60) { 300_000 } else { 4_000 };
    let sy = conforming(&mut r, 7, mc);
    let (bytes, lay) = sy.build();
    case.say(|| format!("{} bytes, {:?}", bytes.len(), sy.entries.iter().map(|e| (e.method, e.desc, e.z64_central, e.z64_disk, e.z64_local, e.extra_central.len(), e.gap_before.len())).collect::<Vec<_>>()));
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let v = run(view::mem_view(bytes.clone(), &mut r1, &mut how_plan(&mut r2))).map_err(|e| format!("in-memory reader refuses a conforming archive: {e:?}"))?;
    compare(&sy, &lay, &v, "mem")?;
    let data = Arc::new(bytes);
    let (src, probe) = Source::new(data.clone(), Schedule::smooth(), r.fork());
    probe.set_budget(3000 + 6 * data.len() as u64);
    let v = run(view::seek_view(src, &mut r1, &mut how_plan(&mut r2))).map_err(|e| format!("seekable reader refuses a conforming archive: {e:?}"))?;
    compare(&sy, &lay, &v, "seek")?;
    if case.idx % 8 == 0 {
        let f = super::c01::scratch_file("c05");
        super::write_scratch(&f, &data);
        let v = run_tokio(view::fs_view(&f, &mut r1, &mut how_plan(&mut r2))).map_err(|e| format!("file-system reader refuses a conforming archive: {e:?}"))?;
        let _ = std::fs::remove_file(&f);
        compare(&sy, &lay, &v, "fs")?;
        case.count("fs_archives", 1);
    }
    // Extra fields as the library saw them, made visible by writing the description elsewhere.
    // (Generated fields have to fit in beside them.)
    let roomy = sy.entries.iter().all(|e| e.extra_central.iter().map(|x| x.data.len() + 4).sum::<usize>() < 50_000);
    if case.idx % 3 == 0 && !sy.entries.is_empty() && roomy {
        let z = run(ZipFileReader::new((*data).clone())).map_err(|e| format!("{e:?}"))?;
        let order: Vec<usize> = if sy.order.is_empty() { (0..sy.entries.len()).collect() } else { sy.order.clone() };
        let out = run(async {
            let mut w = ZipFileWriter::new(Vec::<u8>::new());
            for e in z.file().entries() {
                let e = ZipEntryBuilder::from((**e).clone()).compression(Compression::Stored).build();
                w.write_entry_whole(e, b"x").await?;
            }
            w.close().await
        })
        .map_err(|e| format!("rewriting the listed descriptions failed: {e:?}"))?;
        let a = zipref::parse(&out, 0)?;
        for (k, &i) in order.iter().enumerate() {
            let got: Vec<&Extra> = a.centrals[k].extra.iter().filter(|x| !super::c02::interpreted(x)).collect();
            let want: Vec<&Extra> = sy.entries[i].extra_central.iter().collect();
            ensure!(got == want, "extra fields of entry {k} are carried as {got:?}, recorded {want:?}");
            case.count("extra_fields_reemitted", want.len() as u64);
        }
    }
    case.eval();
    case.count("entries_listed", sy.entries.len() as u64);
    case.count("zip64_end_records", sy.z64_end as u64);
    case.count("zip64_central_fields", sy.entries.iter().filter(|e| e.z64_central.0 || e.z64_central.1 || e.z64_central.2).count() as u64);
    case.count("zip64_disk_fields", sy.entries.iter().filter(|e| e.z64_disk).count() as u64);
    case.count("descriptors", sy.entries.iter().filter(|e| e.desc != Desc::None).count() as u64);
    case.count("zstd_frames", sy.entries.iter().filter(|e| e.framed).count() as u64);
    case.count("gaps", sy.entries.iter().filter(|e| !e.gap_before.is_empty()).count() as u64);
    case.count("shuffled_directories", (sy.order.windows(2).any(|w| w[0] > w[1])) as u64);
    if !sy.entries.is_empty() {
        case.distinct(&data);
        let d = format!("{} entries, {} bytes, z64_end {} mask {:?}, methods {:?}, descriptors {:?}", sy.entries.len(), data.len(), sy.z64_end, sy.z64_mask, sy.entries.iter().map(|e| e.method).collect::<Vec<_>>(), sy.entries.iter().map(|e| e.desc).collect::<Vec<_>>());
        case.sample(|| d);
    }
    Ok(())
}

struct Foreign {
    name: String,
    method: u16,
    content: Vec<u8>,
    mode: u32,
    dir: bool,
    date: (u16, u8, u8, u8, u8, u8),
}

fn zip_crate_case(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let n = r.range(1, 6);
    let fs: Vec<Foreign> = (0..n)
        .map(|i| {
            let dir = r.chance(1, 8);
            Foreign {
                name: if dir { format!("d{i}/") } else { format!("d/{}-{i}", *r.pick(&["plain", "ünïcode", "日本"])) },
                method: if dir { 0 } else { *r.pick(&[0u16, 8, 8, 12, 93, 93, 95]) },
                content: if dir { vec![] } else { gen::content(&mut r, 5000) },
                mode: *r.pick(&[0o644u32, 0o755, 0o600]),
                dir,
                date: (r.range(1980, 2107) as u16, r.range(1, 12) as u8, r.range(1, 28) as u8, r.range(0, 23) as u8, r.range(0, 59) as u8, r.range(0, 29) as u8 * 2),
            }
        })
        .collect();
    let streamed = r.chance(1, 2);
    let comment = if r.chance(1, 2) { "made elsewhere" } else { "" };
    let large = r.chance(1, 3);
    let opts = |f: &Foreign| {
        let m = match f.method {
            0 => zip::CompressionMethod::Stored,
            8 => zip::CompressionMethod::Deflated,
            12 => zip::CompressionMethod::Bzip2,
            93 => zip::CompressionMethod::Zstd,
            _ => zip::CompressionMethod::Xz,
        };
        let d = f.date;
        zip::write::SimpleFileOptions::default()
            .compression_method(m)
            .compression_level(if f.method == 95 { Some(1) } else { None })
            .unix_permissions(f.mode)
            .large_file(large)
            .last_modified_time(zip::DateTime::from_date_and_time(d.0, d.1, d.2, d.3, d.4, d.5).unwrap())
    };
    fn fill<W: Write + std::io::Seek>(mut w: zip::ZipWriter<W>, fs: &[Foreign], comment: &str, opts: impl Fn(&Foreign) -> zip::write::SimpleFileOptions) -> Result<W, zip::result::ZipError> {
        w.set_comment(comment);
        for f in fs {
            if f.dir {
                w.add_directory(f.name.clone(), opts(f))?;
            } else {
                w.start_file(f.name.clone(), opts(f))?;
                w.write_all(&f.content)?;
            }
        }
        w.finish()
    }
    let made = if streamed {
        fill(zip::ZipWriter::new_stream(Vec::<u8>::new()), &fs, comment, opts).map(|w| w.into_inner())
    } else {
        fill(zip::ZipWriter::new(std::io::Cursor::new(Vec::<u8>::new())), &fs, comment, opts).map(|c| c.into_inner())
    };
    let bytes = match made {
        Ok(b) => b,
        Err(e) => {
            case.say(|| format!("zip crate refuses: {e}"));
            return Ok(());
        }
    };
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let v = run(view::mem_view(bytes.clone(), &mut r1, &mut how_plan(&mut r2))).map_err(|e| format!("archive of the zip crate refused: {e:?}"))?;
    let (src, _) = Source::new(Arc::new(bytes.clone()), Schedule::smooth(), r.fork());
    let v2 = run(view::seek_view(src, &mut r1, &mut how_plan(&mut r2))).map_err(|e| format!("archive of the zip crate refused: {e:?}"))?;
    for v in [&v, &v2] {
        ensure!(v.file.entries.len() == n, "archive of the zip crate: {} of {n} entries listed", v.file.entries.len());
        ensure!(v.file.comment == Str::text(comment), "archive of the zip crate: comment {:?}", v.file.comment);
        for (i, f) in fs.iter().enumerate() {
            let g = &v.file.entries[i];
            let w = format!("archive of the zip crate (streamed {streamed}), entry {i} m{}", f.method);
            ensure!(g.name == Str::text(&f.name), "{w}: name {:?}", g.name);
            ensure!(g.method == f.method, "{w}: method {}", g.method);
            ensure!(g.dir == Some(f.dir), "{w}: dir {:?}", g.dir);
            ensure!(g.usize == f.content.len() as u64 && g.crc == zipref::crc32(&f.content), "{w}: size/CRC {}/{:#x}", g.usize, g.crc);
            let d = f.date;
            ensure!(g.date == (d.0 as i32, d.1 as u32, d.2 as u32, d.3 as u32, d.4 as u32, d.5 as u32), "{w}: date {:?}, set {d:?}", g.date);
            ensure!(g.perm.map(|p| p as u32 & 0o777) == Some(f.mode), "{w}: permissions {:?}, set {:o}", g.perm, f.mode);
            match &v.contents[i] {
                Err(e) => bail!("{w}: {e}"),
                Ok(c) => ensure!(*c == f.content, "{w}: content differs"),
            }
        }
    }
    case.eval();
    case.distinct(&bytes);
    case.count(if streamed { "zip_crate_streamed" } else { "zip_crate_archives" }, 1);
    Ok(())
}

/// An LZMA entry in the form the format prescribes.
fn lzma_case(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let c = gen::content(&mut r, 2000);
    let mut e = SynthEntry::new(b"lzma", 14, c, 1);
    let alone = e.cdata.clone();
    e.cdata = [&[9u8, 20, 5, 0][..], &alone[..5], &alone[13..]].concat();
    e.flags = 2;
    let sy = Synth { entries: vec![e.clone()], ..Default::default() };
    let (bytes, _) = sy.build();
    let (mut r1, mut r2) = (r.fork(), r.fork());
    let v = run(view::mem_view(bytes, &mut r1, &mut how_plan(&mut r2))).map_err(|e| format!("{e:?}"))?;
    match &v.contents[0] {
        Ok(c) if *c == e.content => case.count("appnote_lzma_read", 1),
        o => {
            let what = o.as_ref().map(|c| format!("{} wrong bytes", c.len())).unwrap_or_else(|e| e.clone());
            case.finding("lzma-appnote-header", format!("LZMA entry with the header of APPNOTE 5.8.8 is not extracted: {what}"))?
        }
    }
    case.eval();
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    match case.idx % 16 {
        0..=12 => synth_case(case),
        13 if case.idx % 160 == 13 => lzma_case(case),
        _ => zip_crate_case(case),
    }
}
