//! Truncation at every byte.
use crate::chaos::{Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::gen::{self, Limits};
use crate::report::{Case, Prop, Verdict};
use crate::view::{self, Action};
use crate::zipref;
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C09",
    level: "fault_enumeration",
    rule: "case = an archive produced by a random program (0..4 entries, all calls and methods, comments, ZIP64 modes), cut at every byte (up to 3000 bytes; at 400 random places and around every structure beyond); each prefix is offered to the in-memory or seekable reader (must refuse) and, when it ends before the central directory, walked by the stream reader (entries must be leading entries with prefixes of their content, then an error); non-trivial = every proper prefix of a non-empty archive; distinct by (archive, cut)",
    assumptions: &["prefixes that contain an end record signature within entry data, names or comments are not offered to the random-access readers (they may embed a whole archive)"],
    cases: |t| t.pick(2400, 120000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["cut_refused_mem", "cut_refused_seek", "cut_refused_fs", "stream_cut_error", "stream_entries_before_cut", "cuts_within_comment", "cuts_within_directory"],
    exhaustive: false,
};

fn find(b: &[u8], sig: u32) -> Option<usize> {
    b.windows(4).position(|w| w == sig.to_le_bytes())
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let big = r.chance(1, 12);
    let l = Limits { entries: 4, content: if big { 70_000 } else { 260 }, name: 14, plain_names: false };
    let mut p = gen::program(&mut r, &l);
    for s in &mut p.entries {
        if matches!(s.method, 14 | 95) && !r.chance(1, 4) {
            s.method = 8;
        }
    }
    let bytes = gen::archive(&p)?;
    let a = zipref::parse(&bytes, p.comment.as_ref().map_or(0, |c| c.len()))?;
    let (cd, eocd) = (a.cd_off as usize, a.eocd_off as usize);
    let embedded = find(&bytes, zipref::EOCD).filter(|k| *k < eocd);
    let mut cuts: Vec<usize> = if bytes.len() <= 3000 {
        (0..bytes.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..400).map(|_| r.below(bytes.len())).collect();
        for o in a.centrals.iter().map(|c| c.off as usize).chain([cd, eocd, bytes.len()]) {
            v.extend((o.saturating_sub(40)..(o + 50)).filter(|k| *k < bytes.len()));
        }
        v
    };
    cuts.sort();
    cuts.dedup();
    case.say(|| format!("{} -> {} bytes, directory {cd}, end {eocd}", p.describe(), bytes.len()));
    let order: Vec<usize> = (0..p.entries.len()).collect();
    for &c in &cuts {
        let w = format!("archive of {} bytes (directory at {cd}, end record at {eocd}) cut after {c}; {}", bytes.len(), p.describe());
        case.eval();
        let mut key = bytes[..c].to_vec();
        key.extend((bytes.len() as u32).to_le_bytes());
        case.distinct(&key);
        let pre = Arc::new(bytes[..c].to_vec());
        if embedded.is_none_or(|k| k + 4 > c) {
            match r.below(2) {
                0 => {
                    if run(mem::ZipFileReader::new((*pre).clone())).is_ok() {
                        bail!("the in-memory reader accepts a truncated archive: {w}");
                    }
                    case.count("cut_refused_mem", 1);
                }
                _ => {
                    let (src, probe) = Source::new(pre.clone(), Schedule::smooth(), r.fork());
                    probe.set_budget(1000 + 4 * c as u64);
                    if run(seek::ZipFileReader::new(src)).is_ok() {
                        bail!("the seekable reader accepts a truncated archive: {w}");
                    }
                    case.count("cut_refused_seek", 1);
                }
            }
            if r.chance(1, 100) {
                let f = super::c01::scratch_file("c09");
                super::write_scratch(&f, &pre);
                let ok = run_tokio(async_zip::tokio::read::fs::ZipFileReader::new(&f)).is_ok();
                let _ = std::fs::remove_file(&f);
                ensure!(!ok, "the file-system reader accepts a truncated archive: {w}");
                case.count("cut_refused_fs", 1);
            }
            if c > eocd + 22 {
                case.count("cuts_within_comment", 1);
            } else if c > cd && c < eocd {
                case.count("cuts_within_directory", 1);
            }
        }
        // Forward.
        let (src, probe) = Source::new(pre.clone(), Schedule::smooth(), r.fork());
        probe.set_budget(10_000 + 8 * c as u64);
        let mode = r.below(4);
        let mut rr = r.fork();
        let v = run(view::stream_view(src, &mut rr, &mut |k| match (mode, k % 3) {
            (0, _) => (true, Action::ReadDone),
            (1, _) => (true, Action::Skip),
            (2, 0) => (true, Action::PartSkip),
            _ => (true, Action::ReadSkip),
        }));
        if c <= cd + 3 {
            ensure!(v.end.is_err(), "the stream reader reports a clean end: {w}");
            case.count("stream_cut_error", 1);
        }
        ensure!(v.steps.len() <= order.len(), "the stream reader yields {} entries: {w}", v.steps.len());
        for (k, st) in v.steps.iter().enumerate() {
            let s = &p.entries[k];
            let e = st.entry.as_ref().expect("asked for");
            ensure!(e.name.stored() == s.name.stored(), "stream entry {k} is named {:?}: {w}", e.name);
            ensure!(s.content.starts_with(&st.data), "stream entry {k} delivers {} bytes that are no prefix of its content: {w}", st.data.len());
            case.count("stream_entries_before_cut", 1);
        }
        if let Err(e) = &v.end {
            ensure!(!e.starts_with("HASH") && !e.starts_with("HARNESS"), "{e}: {w}");
        }
    }
    let d = format!("{} cuts of {} bytes: {}", cuts.len(), bytes.len(), p.describe());
    case.sample(|| d);
    Ok(())
}
