//! A fault at every operation of the source.
use crate::chaos::{Fault, Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{self, Action, ArchiveView, FileView, How, StreamView};
use crate::{bail, ensure};
use async_zip::base::read::{seek, stream};
use std::io::ErrorKind;
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncReadCompatExt;

pub const PROP: Prop = Prop {
    id: "C12",
    level: "fault_enumeration",
    rule: "case = an intact archive (produced or synthesised) and a reading session (open, list, per entry open and read; or stream stepping with read, skip, finish) over a scheduled source; the session is repeated with a fault injected at every operation of the source (400 sampled ones beyond that), once, three times or for good, with varying error kinds; oracle: the call during which the fault struck returns an error, data delivered before are right, nothing panics or stalls, and with the source healed opening the archive or entry anew gives the baseline; plus real I/O errors of the file system reader; non-trivial = every fault that struck; distinct by (archive, operation, fault)",
    assumptions: &["an Interrupted error may be answered by retrying instead of failing", "the fault injection replaces the source; the file system reader is exercised with vanished files and directories only"],
    cases: |t| t.pick(9000, 400000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["faults_on_single_entries", "faults_on_open", "faults_on_entry_open", "faults_on_read", "faults_on_stream", "recovered_opens", "recovered_entries", "permanent_faults", "file_system_faults", "tokio_sessions"],
    exhaustive: false,
};

fn fault(r: &mut Rng, at: u64) -> Fault {
    let kind = if r.chance(1, 3) { *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::Interrupted]) } else { *r.pick(&crate::chaos::KINDS) };
    Fault { at, times: *r.pick(&[1, 1, 3, u64::MAX]), kind, zero: false }
}

/// One reading session with random access under a fault. `base` is what it delivers without.
fn seek_session(case: &mut Case, r: &mut Rng, data: &Arc<Vec<u8>>, sched: &Schedule, rng: &Rng, base: &ArchiveView, plan: &[(bool, How)], f: Fault) -> Verdict {
    let soft = f.kind == ErrorKind::Interrupted;
    let (mut src, probe) = Source::new(data.clone(), sched.clone(), rng.clone());
    probe.set_budget(200_000 + 64 * data.len() as u64);
    probe.set_fault(Some(f.clone()));
    case.count("permanent_faults", (f.times == u64::MAX) as u64);
    let opened = run(seek::ZipFileReader::new(&mut src));
    let struck = probe.counters().faults > 0;
    let mut z = match opened {
        Err(e) => {
            ensure!(struck, "opening fails without a fault: {e:?}");
            case.count("faults_on_open", 1);
            probe.set_fault(None);
            case.count("recovered_opens", 1);
            match run(seek::ZipFileReader::new(&mut src)) {
                Ok(z) => {
                    ensure!(FileView::of(z.file()) == base.file, "after a failed opening the archive lists differently");
                    z
                }
                Err(e) => bail!("after a failed opening the archive cannot be opened anew: {e:?}"),
            }
        }
        Ok(z) => {
            ensure!(!struck || soft, "opening succeeds although the source failed");
            ensure!(FileView::of(z.file()) == base.file, "the listing differs");
            z
        }
    };
    for i in 0..base.contents.len() {
        let (with, how) = plan[i % plan.len()];
        for attempt in 0..2 {
            let before = probe.counters().faults;
            let mut rr = r.fork();
            let (opened, got) = run(async {
                if with {
                    match z.reader_with_entry(i).await {
                        Err(e) => (false, Err(view::err(e))),
                        Ok(mut rd) => {
                            if probe.counters().faults > before && !soft {
                                return (true, Ok(None));
                            }
                            (true, view::slurp_with(&mut rd, &mut rr, how, false).await.map(Some))
                        }
                    }
                } else {
                    match z.reader_without_entry(i).await {
                        Err(e) => (false, Err(view::err(e))),
                        Ok(mut rd) => {
                            if probe.counters().faults > before && !soft {
                                return (true, Ok(None));
                            }
                            (true, view::slurp_without(&mut rd, &mut rr, how).await.map(Some))
                        }
                    }
                }
            });
            let struck = probe.counters().faults > before;
            match got {
                Ok(None) => bail!("entry {i} opens although the source failed"),
                Ok(Some(d)) => {
                    ensure!(!struck || soft, "reading entry {i} ({how:?}) succeeds although the source failed");
                    ensure!(Ok(&d) == base.contents[i].as_ref(), "entry {i} delivers other data ({} bytes)", d.len());
                    case.count("recovered_entries", attempt as u64);
                    break;
                }
                Err(e) => {
                    ensure!(struck, "entry {i} fails {}: {e}", if attempt > 0 { "although the source works again" } else { "without a fault" });
                    ensure!(!e.starts_with("HASH") && !e.starts_with("HARNESS") && !e.starts_with("COUNT") && !e.starts_with("ENTRY"), "entry {i}: {e}");
                    case.count(if opened { "faults_on_read" } else { "faults_on_entry_open" }, 1);
                    probe.set_fault(None);
                }
            }
        }
    }
    Ok(())
}

fn stream_session(data: &Arc<Vec<u8>>, sched: &Schedule, rng: &Rng, rr: &Rng, acts: &[(bool, Action)], f: Option<Fault>, tokio: bool) -> (StreamView, crate::chaos::Counters) {
    let (src, probe) = Source::new(data.clone(), sched.clone(), rng.clone());
    probe.set_budget(200_000 + 64 * data.len() as u64);
    probe.set_fault(f);
    let mut rr = rr.clone();
    let mut act = |i: usize| acts[i % acts.len()];
    let v = if tokio {
        run(view::stream_view_open(stream::ZipFileReader::with_tokio(src.compat()), &mut rr, &mut act))
    } else {
        run(view::stream_view(src, &mut rr, &mut act))
    };
    (v, probe.counters())
}

fn file_system(case: &mut Case, r: &mut Rng, data: &[u8]) -> Verdict {
    let f = super::c01::scratch_file("c12");
    super::write_scratch(&f, data);
    let n = run_tokio(async {
        use async_zip::tokio::read::fs::ZipFileReader;
        let z = match ZipFileReader::new(&f).await {
            Ok(z) => z,
            Err(e) => return Err(format!("cannot open: {e:?}")),
        };
        let n = z.file().entries().len();
        let _ = std::fs::remove_file(&f);
        let mut faults = 0;
        if ZipFileReader::new(&f).await.is_ok() {
            return Err("a file that does not exist is opened".into());
        }
        let dir = r.chance(1, 2);
        if dir && std::fs::create_dir(&f).is_err() {
            std::panic::panic_any(crate::report::Infra("scratch directory".into()));
        }
        if dir && ZipFileReader::new(&f).await.is_ok() {
            return Err("a directory is opened".into());
        }
        for i in 0..n {
            let ok = if r.chance(1, 2) { z.reader_with_entry(i).await.is_ok() } else { z.reader_without_entry(i).await.is_ok() };
            if ok {
                return Err(format!("entry {i} opens although the file is {}", if dir { "a directory" } else { "gone" }));
            }
            faults += 1;
        }
        if dir {
            let _ = std::fs::remove_dir(&f);
        }
        super::write_scratch(&f, data);
        for i in 0..n {
            match z.reader_with_entry(i).await {
                Err(e) => return Err(format!("entry {i} fails although the file is back: {e:?}")),
                Ok(mut rd) => {
                    let mut v = vec![];
                    if let Err(e) = rd.read_to_end_checked(&mut v).await {
                        return Err(format!("entry {i} fails although the file is back: {e:?}"));
                    }
                }
            }
        }
        Ok(faults + 1)
    });
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&f);
    case.count("file_system_faults", n.map_err(|e| format!("file-system reader: {e}"))?);
    Ok(())
}

/// The reader turned into one of a single entry, under a fault. `n`: operations without it.
fn single_session(r: &mut Rng, data: &Arc<Vec<u8>>, sched: &Schedule, rng: &Rng, base: &ArchiveView, i: usize, f: Option<Fault>) -> Result<(u64, bool), String> {
    let (src, probe) = Source::new(data.clone(), sched.clone(), rng.clone());
    probe.set_budget(200_000 + 64 * data.len() as u64);
    let soft = f.as_ref().is_some_and(|f| f.kind == ErrorKind::Interrupted);
    probe.set_fault(f);
    let got = run(async {
        let z = seek::ZipFileReader::new(src).await.map_err(view::err)?;
        let mut rd = z.into_entry(i).await.map_err(view::err)?;
        view::slurp_without(&mut rd, r, How::Plain).await
    });
    let struck = probe.counters().faults > 0;
    match got {
        Ok(d) => {
            ensure!(!struck || soft, "reading entry {i} as the only one succeeds although the source failed");
            ensure!(base.contents[i].as_ref() == Ok(&d), "entry {i} read as the only one delivers other data");
        }
        Err(e) => ensure!(struck, "reading entry {i} as the only one fails without a fault: {e}"),
    }
    Ok((probe.counters().ops, struck))
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let max = if r.chance(1, 15) { 40_000 } else { 700 };
    let (bytes, _, _) = loop {
        let a = super::c10::any_archive(&mut r, max)?;
        if !a.1 {
            break a;
        }
    };
    let data = Arc::new(bytes);
    let sched = if r.chance(1, 2) { Schedule::smooth() } else { Schedule { max_chunk: r.range(30, 3000), ..Schedule::random(&mut r) } };
    let rng = r.fork();
    // Random access.
    let plan: Vec<(bool, How)> = (0..5).map(|_| (r.chance(1, 2), *r.pick(&[How::Plain, How::Checked, How::Pieces]))).collect();
    let (src, probe) = Source::new(data.clone(), sched.clone(), rng.clone());
    let mut rr = r.fork();
    let base = run(view::seek_view(src, &mut rr, &mut |i| (plan[i % 5].0, plan[i % 5].1, false))).map_err(|e| format!("an intact archive is refused: {e:?}"))?;
    for (i, c) in base.contents.iter().enumerate() {
        ensure!(c.is_ok(), "entry {i} of an intact archive fails: {c:?}");
    }
    let n = probe.counters().ops;
    let cap = 400;
    let points: Vec<u64> = if n <= cap { (0..n).collect() } else { (0..cap).map(|_| r.below(n as usize) as u64).collect() };
    for at in points {
        let f = fault(&mut r, at);
        let what = format!("fault {f:?} of {n} operations, archive of {} bytes, reads {plan:?}, source {}", data.len(), sched.describe());
        case.eval();
        case.distinct(format!("{at}{f:?}{:?}", crate::rng::hash_bytes(&data)).as_bytes());
        seek_session(case, &mut r, &data, &sched, &rng, &base, &plan, f).map_err(|e| format!("{e}; {what}"))?;
    }
    if !base.contents.is_empty() {
        let i = r.below(base.contents.len());
        let (n, _) = single_session(&mut r.fork(), &data, &sched, &rng, &base, i, None)?;
        for at in 0..n.min(40) {
            let at = if n <= 40 { at } else { r.below(n as usize) as u64 };
            let f = fault(&mut r, at);
            let (_, struck) = single_session(&mut r.fork(), &data, &sched, &rng, &base, i, Some(f.clone())).map_err(|e| format!("{e}; fault {f:?} of {n} operations, archive of {} bytes, source {}", data.len(), sched.describe()))?;
            case.eval();
            case.count("faults_on_single_entries", struck as u64);
        }
    }
    // Forward.
    let acts: Vec<(bool, Action)> = (0..5).map(|_| (r.chance(1, 2), *r.pick(&[Action::ReadDone, Action::ReadSkip, Action::PartSkip, Action::Skip]))).collect();
    let tokio = r.chance(1, 3);
    case.count("tokio_sessions", tokio as u64);
    let rr = r.fork();
    let (base, c) = stream_session(&data, &sched, &rng, &rr, &acts, None, tokio);
    let n = c.ops;
    let points: Vec<u64> = if n <= cap { (0..n).collect() } else { (0..cap).map(|_| r.below(n as usize) as u64).collect() };
    for at in points {
        let f = fault(&mut r, at);
        let what = format!("fault {f:?} of {n} operations, archive of {} bytes, actions {acts:?}, source {}", data.len(), sched.describe());
        case.eval();
        case.distinct(format!("s{at}{f:?}{:?}", crate::rng::hash_bytes(&data)).as_bytes());
        let (v, c) = stream_session(&data, &sched, &rng, &rr, &acts, Some(f.clone()), tokio);
        ensure!(c.faults > 0, "HARNESS: the fault did not strike; {what}");
        case.count("faults_on_stream", 1);
        if f.kind == ErrorKind::Interrupted && v.end.is_ok() {
            ensure!(v == base, "a stream walk with a retried interruption differs; {what}");
            continue;
        }
        ensure!(v.end.is_err(), "a stream walk ends cleanly after {} entries although the source failed; {what}", v.steps.len());
        ensure!(v.steps.len() <= base.steps.len(), "more entries than without a fault; {what}");
        if let Err(e) = &v.end {
            ensure!(!e.starts_with("HASH") && !e.starts_with("HARNESS"), "{e}; {what}");
        }
        for (k, (x, y)) in v.steps.iter().zip(&base.steps).enumerate() {
            ensure!(x.entry == y.entry, "stream entry {k} differs; {what}");
            let last = k + 1 == v.steps.len();
            // Finishing the last entry is what may have failed.
            ensure!(if last { y.data.starts_with(&x.data) } else { x.data == y.data && x.complete == y.complete }, "stream entry {k} delivers other data ({} and {} bytes); {what}", x.data.len(), y.data.len());
        }
    }
    if r.chance(1, 8) {
        file_system(case, &mut r, &data)?;
    }
    let d = format!("archive of {} bytes, {} entries, {n} stream operations", data.len(), base.steps.len());
    case.sample(|| d);
    Ok(())
}
