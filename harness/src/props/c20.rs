//! Every method number, in several feature configurations; features that are refused.
use crate::chaos::{Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::report::{Case, Infra, Prop, Verdict};
use crate::rng::Rng;
use crate::zipref::{self, Desc, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, stream};
use async_zip::error::ZipError;
use futures_lite::io::Cursor;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C20",
    level: "exploration",
    rule: "cases 0..255: all 65536 method numbers in the configuration with all features: an entry using the method stands first, in the middle or last in an archive that is opened by the in-memory, seekable or file-system reader and stepped through forward; cases 256..511: one program per further feature configuration (quick: none, each alone, all but each, two with chrono or tokio; thorough: all 64 and those with chrono, tokio, tokio-fs) built from the tree and run over all 65536 numbers, with a write/read round trip of what is compiled in; other cases: split and spanned end records (classic, ZIP64, masked fields), and for forward reading encrypted entries and stored entries with descriptors among ordinary ones; oracle: a table of method numbers per feature and the error named by the property; non-trivial = every number or refused archive; distinct by (configuration, number) or archive",
    assumptions: &["an archive is split or spanned when its end record names a disk other than the first or counts differ; contradictions between classic and ZIP64 records are not considered", "a feature configuration that does not build is left out"],
    cases: |t| t.pick(20000, 600000),
    budget: |t| t.pick(100, 1200),
    threads: 8,
    run: case_run,
    must_observe: &["methods_accepted", "methods_refused", "methods_refused_forward", "feature_configurations", "spanned_refused", "encrypted_refused", "stored_descriptor_refused", "ordinary_accepted"],
    exhaustive: false,
};

const SUPPORTED: [u16; 7] = [0, 8, 9, 12, 14, 93, 95];

fn name_of(e: &ZipError) -> String {
    format!("{e:?}")
}

/// Opens the archive with one of the random-access readers.
fn open(bytes: &[u8], r: &mut Rng, case: &mut Case) -> Result<usize, ZipError> {
    match r.below(12) {
        0..=6 => run(mem::ZipFileReader::new(bytes.to_vec())).map(|z| z.file().entries().len()),
        7..=10 => {
            let (src, _) = Source::new(Arc::new(bytes.to_vec()), Schedule::random(r), r.fork());
            run(seek::ZipFileReader::new(src)).map(|z| z.file().entries().len())
        }
        _ => {
            let f = super::c01::scratch_file("c20");
            super::write_scratch(&f, bytes);
            case.count("fs_opens", 1);
            run_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&f)).map(|z| z.file().entries().len())
        }
    }
}

/// Steps through the archive; the number of entries seen and what ended it.
fn forward(bytes: &[u8], with: bool) -> (usize, Result<(), ZipError>) {
    let mut n = 0;
    let e = run(async {
        let mut z = stream::ZipFileReader::new(Cursor::new(bytes));
        loop {
            if with {
                match z.next_with_entry().await? {
                    None => return Ok(()),
                    Some(rd) => {
                        n += 1;
                        z = rd.skip().await?;
                    }
                }
            } else {
                match z.next_without_entry().await? {
                    None => return Ok(()),
                    Some(rd) => {
                        n += 1;
                        z = rd.skip().await?;
                    }
                }
            }
        }
    });
    (n, e)
}

fn ordinary(r: &mut Rng, i: usize) -> SynthEntry {
    let n = r.below(60);
    SynthEntry::new(format!("f{i}").as_bytes(), *r.pick(&[0u16, 8, 8, 12, 93]), r.bytes(n), 1)
}

fn methods(case: &mut Case, r: &mut Rng) -> Verdict {
    for low in 0..256u16 {
        let m = (case.idx as u16) << 8 | low;
        let supported = SUPPORTED.contains(&m);
        let total = r.range(1, 3);
        let at = r.below(total);
        let mut sy = Synth::default();
        for i in 0..total {
            let mut e = ordinary(r, i);
            if i == at {
                let n = r.below(30);
                let data = r.bytes(n);
                if supported {
                    e = SynthEntry::new(b"this", m, data, 1);
                } else {
                    e.content = data.clone();
                    e.cdata = data;
                    e.method = m;
                    e.crc = zipref::crc32(&e.content);
                }
                if r.chance(1, 8) {
                    // Whatever else the entry says.
                    e.extra_central = super::c02::foreign_extras(r);
                    e.flags = *r.pick(&[0u16, 2, 0x800, 0x806]);
                    e.needed = *r.pick(&[10u16, 20, 45, 46, 51, 63, 90]);
                }
            }
            sy.entries.push(e);
        }
        let bytes = sy.build().0;
        case.eval();
        let w = format!("method {m} in entry {at} of {total}");
        match (open(&bytes, r, case), supported) {
            (Ok(n), true) => {
                ensure!(n == total, "{w}: {n} entries listed");
                let z = run(mem::ZipFileReader::new(bytes.clone())).map_err(|e| format!("{w}: {e:?}"))?;
                let g: u16 = z.file().entries()[at].compression().into();
                ensure!(g == m, "{w}: listed as {g}");
                let mut v = vec![];
                run(async { z.reader_with_entry(at).await?.read_to_end_checked(&mut v).await }).map_err(|e| format!("{w}: reading fails: {e:?}"))?;
                ensure!(v == sy.entries[at].content, "{w}: wrong content");
                case.count("methods_accepted", 1);
            }
            (Err(ZipError::CompressionNotSupported(n)), false) => {
                ensure!(n == m, "{w}: refused naming {n}");
                case.count("methods_refused", 1);
            }
            (Ok(_), false) => bail!("{w}: opens although it is not supported"),
            (Err(e), _) => bail!("{w}: opening fails with {}", name_of(&e)),
        }
        match (forward(&bytes, r.chance(1, 2)), supported) {
            ((n, Ok(())), true) => ensure!(n == total, "{w}: forward reading yields {n} of {total}"),
            ((n, Err(ZipError::CompressionNotSupported(x))), false) => {
                ensure!(n == at && x == m, "{w}: forward reading is refused naming {x} after {n} entries");
                case.count("methods_refused_forward", 1);
            }
            ((n, e), _) => bail!("{w}: forward reading gives {e:?} after {n} entries"),
        }
        case.distinct(&m.to_le_bytes());
    }
    Ok(())
}

fn configuration(case: &mut Case, k: usize) -> Verdict {
    let dir = crate::verif_dir().join("target/feat-bin");
    let mut list: Vec<String> = match std::fs::read_dir(&dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect(),
        Err(e) => std::panic::panic_any(Infra(format!("feature programs: {e}"))),
    };
    list.sort();
    if list.is_empty() {
        std::panic::panic_any(Infra("no feature configuration was built".into()));
    }
    let Some(c) = list.get(k) else { return Ok(()) };
    let o = match std::process::Command::new(dir.join(c)).output() {
        Ok(o) => o,
        Err(e) => std::panic::panic_any(Infra(format!("feature program {c}: {e}"))),
    };
    let out = String::from_utf8_lossy(&o.stdout).trim().to_string();
    let errs: String = String::from_utf8_lossy(&o.stderr).chars().take(300).collect();
    ensure!(o.status.success() && out.starts_with("OK"), "with features '{c}': {out} {errs}");
    case.eval();
    case.count("feature_configurations", 1);
    case.count("configuration_methods", 65536);
    case.distinct(c.as_bytes());
    case.sample(|| format!("features {c}: {out}"));
    Ok(())
}

fn put(b: &mut [u8], at: u64, v: &[u8]) {
    b[at as usize..at as usize + v.len()].copy_from_slice(v);
}

fn spanned(case: &mut Case, r: &mut Rng) -> Verdict {
    let mut sy = Synth::default();
    let n = r.below(4);
    for i in 0..n {
        sy.entries.push(ordinary(r, i));
    }
    sy.z64_end = r.chance(1, 2);
    let clen = r.below(30);
    sy.comment = r.bytes(clen).iter().map(|b| b & 0x3f).collect();
    let (mut b, lay) = sy.build();
    ensure!(open(&b, r, case).is_ok_and(|k| k == n), "the archive cannot be opened unchanged");
    case.count("ordinary_accepted", 1);
    // Which disks: (this disk, disk of the directory start, entries here)
    let small = |r: &mut Rng| *r.pick(&[1u16, 2, 3, 255, 256, 65534]);
    let (disk, start, here) = match r.below(4) {
        0 => (small(r), 0, n as u16),
        1 => {
            let d = small(r);
            (d, d, n as u16)
        }
        2 => (0, 0, (n as u16).wrapping_add(small(r)).min(65534)),
        _ => {
            let d = small(r);
            (d, d - 1, if n > 0 { r.below(n) as u16 } else { 0 })
        }
    };
    let mask = sy.z64_end && r.chance(1, 2);
    if sy.z64_end {
        put(&mut b, lay.z64rec + 16, &(disk as u32).to_le_bytes());
        put(&mut b, lay.z64rec + 20, &(start as u32).to_le_bytes());
        put(&mut b, lay.z64rec + 24, &(here as u64).to_le_bytes());
        put(&mut b, lay.z64rec + 32, &(n as u64).to_le_bytes());
        put(&mut b, lay.z64rec + 56 + 16 + sy.z64_ext.len() as u64, &(disk as u32 + 1).to_le_bytes());
    }
    let f = |v: u16| if mask { u16::MAX } else { v };
    put(&mut b, lay.eocd + 4, &f(disk).to_le_bytes());
    put(&mut b, lay.eocd + 6, &f(start).to_le_bytes());
    put(&mut b, lay.eocd + 8, &f(here).to_le_bytes());
    put(&mut b, lay.eocd + 10, &f(n as u16).to_le_bytes());
    let w = format!("disk {disk}, directory on disk {start}, {here} of {n} entries here, ZIP64 {}, masked {mask}", sy.z64_end);
    case.eval();
    match open(&b, r, case) {
        Err(ZipError::FeatureNotSupported(_)) => case.count("spanned_refused", 1),
        Ok(_) => bail!("a split archive is accepted: {w}"),
        Err(e) => bail!("a split archive is refused with {e:?}: {w}"),
    }
    case.distinct(w.as_bytes());
    case.sample(|| w);
    Ok(())
}

fn refused_forward(case: &mut Case, r: &mut Rng) -> Verdict {
    let total = r.range(1, 4);
    let at = r.below(total);
    let encrypted = r.chance(1, 2);
    let mut sy = Synth::default();
    for i in 0..total {
        let mut e = ordinary(r, i);
        if r.chance(1, 3) && e.method != 0 {
            e.desc = Desc::Sig;
        }
        if i == at {
            if encrypted {
                e.flags |= 1 | if r.chance(1, 3) { *r.pick(&[0x40u16, 0x2000, 0x800, 2]) } else { 0 };
                if r.chance(1, 4) && e.method != 0 {
                    e.desc = *r.pick(&[Desc::Sig, Desc::NoSig, Desc::Sig64]);
                    e.z64_local = matches!(e.desc, Desc::Sig64);
                }
            } else {
                let n = *r.pick(&[0usize, 1, 30, 300]);
                e = SynthEntry::new(b"stored", 0, r.bytes(n), 1);
                e.desc = *r.pick(&[Desc::Sig, Desc::NoSig, Desc::Sig64, Desc::NoSig64]);
                e.z64_local = matches!(e.desc, Desc::Sig64 | Desc::NoSig64);
                e.local_values = r.chance(1, 3);
                e.flags |= *r.pick(&[0u16, 0, 0x800, 2]);
            }
        }
        sy.entries.push(e);
    }
    let b = sy.build().0;
    let w = format!("{} in entry {at} of {total}, flags {:#x}, method {}, {:?}", if encrypted { "encryption" } else { "stored with descriptor" }, sy.entries[at].flags, sy.entries[at].method, sy.entries[at].desc);
    case.eval();
    match forward(&b, r.chance(1, 2)) {
        (n, Err(ZipError::FeatureNotSupported(_))) if n == at => case.count(if encrypted { "encrypted_refused" } else { "stored_descriptor_refused" }, 1),
        (n, x) => bail!("forward reading gives {x:?} after {n} entries: {w}"),
    }
    // Without the peculiarity it is read.
    let e = &mut sy.entries[at];
    e.flags &= !0x2041;
    if !encrypted {
        e.desc = Desc::None;
    }
    match forward(&sy.build().0, r.chance(1, 2)) {
        (n, Ok(())) if n == total => case.count("ordinary_accepted", 1),
        (n, x) => bail!("forward reading gives {x:?} after {n} of {total} entries although nothing is peculiar: {w}"),
    }
    case.distinct(w.as_bytes());
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    match case.idx {
        0..=255 => methods(case, &mut r),
        256..=511 => configuration(case, case.idx as usize - 256),
        k if k % 2 == 0 => spanned(case, &mut r),
        _ => refused_forward(case, &mut r),
    }
}
