//! Reading under every kind of delivery schedule.
use crate::chaos::{Schedule, Source};
use crate::deflate64;
use crate::exec::{run, unasked_polls};
use crate::gen::{Limits};
use crate::mutate;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{self, Action, ArchiveView, How, StreamView};
use crate::{bail, ensure};
use async_zip::base::read::{seek, stream};
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncReadCompatExt;

pub const PROP: Prop = Prop {
    id: "C10",
    level: "exploration",
    rule: "case = an archive (produced, synthesised, or corrupted) read once over a source that delivers everything at once, then 5 times each by the seekable and the stream reader, futures and tokio flavours, over sources with random short reads (1 byte and up), not-ready answers (in bursts, woken at once or later, before reads and seeks); oracle: identical listing, contents, success and failure; the executor polls only when woken, or in half of the schedules also without reason and with another waker each time, and reports a stall; non-trivial = schedule that answered not-ready or cut a read; distinct by (archive, schedule)",
    assumptions: &["for corrupted archives the data delivered before an error may be cut differently; only success, failure and prefix relation are compared there"],
    cases: |t| t.pick(16000, 600000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["schedules", "not_ready_answers", "unasked_polls", "seek_schedules", "stream_schedules", "tokio_schedules", "corrupted_archives", "descriptor_archives"],
    exhaustive: false,
};

fn same(a: &Result<ArchiveView, String>, b: &Result<ArchiveView, String>) -> Verdict {
    match (a, b) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(x), Ok(y)) => {
            ensure!(x.file == y.file, "the listing differs: {:?} and {:?}", x.file, y.file);
            ensure!(x.contents.len() == y.contents.len(), "the number of contents differs");
            for (i, (c, d)) in x.contents.iter().zip(&y.contents).enumerate() {
                match (c, d) {
                    (Ok(c), Ok(d)) => ensure!(c == d, "content of entry {i} differs ({} and {} bytes)", c.len(), d.len()),
                    (Err(_), Err(_)) => {}
                    (Ok(_), Err(e)) => bail!("entry {i} is read smoothly but fails under the schedule: {e}"),
                    (Err(e), Ok(_)) => bail!("entry {i} fails smoothly ({e}) but not under the schedule"),
                }
            }
            Ok(())
        }
        (Ok(_), Err(e)) => bail!("opens smoothly but not under the schedule: {e}"),
        (Err(e), Ok(_)) => bail!("opens under the schedule but not smoothly: {e}"),
    }
}

fn same_stream(a: &StreamView, b: &StreamView, acts: &[(bool, Action)]) -> Verdict {
    ensure!(a.end.is_err() == b.end.is_err(), "ends with {:?} smoothly, {:?} under the schedule", a.end, b.end);
    ensure!(a.steps.len() == b.steps.len(), "{} entries smoothly, {} under the schedule ({:?}, {:?})", a.steps.len(), b.steps.len(), a.end, b.end);
    for (k, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        ensure!(x.entry == y.entry, "entry {k} differs: {:?} and {:?}", x.entry, y.entry);
        let full = matches!(acts[k % acts.len()].1, Action::ReadDone | Action::ReadSkip);
        let last = k + 1 == a.steps.len() && a.end.is_err();
        if full && !last {
            ensure!(x.data == y.data && x.complete == y.complete, "data of entry {k} differ ({} and {} bytes)", x.data.len(), y.data.len());
        } else {
            ensure!(x.data.starts_with(&y.data) || y.data.starts_with(&x.data), "partial data of entry {k} differ");
        }
    }
    Ok(())
}

pub fn any_archive(r: &mut Rng, max: usize) -> Result<(Vec<u8>, bool, bool), String> {
    Ok(match r.below(4) {
        0 | 1 => {
            let l = Limits { entries: 4, content: max, name: 20, plain_names: false };
            let (b, _, dd, _, _) = super::c03::forward_archive(r, &l)?;
            (b, false, dd > 0)
        }
        2 => {
            let s = super::c05::conforming(r, 4, max);
            let dd = s.entries.iter().any(|e| e.desc != crate::zipref::Desc::None);
            (s.build().0, false, dd)
        }
        _ => {
            let (mut b, l) = mutate::base(r);
            mutate::mutate(r, &mut b, l.as_ref());
            (b, true, false)
        }
    })
}

/// Deflate64 data with an over-subscribed Huffman code.
const INVALID_CODE: &str = "05c1210e80200000c01798ec468b9960b509ce66b1b9b959dd485209644620301e001b7f20b0f10102343ec0886cdc7128c53b684f4d9aa11def9c4ed6d6694715942f2e787b0ef53b072e1b4807";

/// The known finding, on one input where it shows.
fn invalid_code(case: &mut Case) -> Verdict {
    let data: Vec<u8> = (0..INVALID_CODE.len() / 2).map(|i| u8::from_str_radix(&INVALID_CODE[2 * i..2 * i + 2], 16).unwrap()).collect();
    let mut archive = b"PK\x03\x04\x15\0\0\0\x09\0\0\0\0\0\0\0\0\0".to_vec();
    archive.extend((data.len() as u32).to_le_bytes());
    archive.extend(1000u32.to_le_bytes());
    archive.extend([1, 0, 0, 0, b'a']);
    archive.extend(&data);
    ensure!(deflate64::invalid_codes(&archive), "HARNESS the witness has no invalid code");
    let archive = Arc::new(archive);
    let read = |s: Schedule| {
        let (src, _) = Source::new(archive.clone(), s, Rng::new(1));
        run(view::stream_view(src, &mut Rng::new(1), &mut |_| (false, Action::ReadDone)))
    };
    let mut bytewise = Schedule::smooth();
    bytewise.max_chunk = 1;
    let (a, b) = (read(Schedule::smooth()), read(bytewise));
    let data = |v: &StreamView| v.steps.first().map(|s| (s.data.clone(), s.complete));
    if data(&a) != data(&b) {
        case.finding("deflate64-invalid-code", format!("corrupted Deflate64 data (over-subscribed Huffman code, 78 bytes in case 0) read differently when delivered bytewise: {:?} and {:?} bytes", data(&a).map(|d| d.0.len()), data(&b).map(|d| d.0.len())))?;
    }
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    if case.idx == 0 {
        invalid_code(case)?;
    }
    let mut r = case.rng.fork();
    let max = if r.chance(1, 40) { 60_000 } else { 1500 };
    let (bytes, corrupted, dd) = any_archive(&mut r, max)?;
    case.count("corrupted_archives", corrupted as u64);
    case.count("descriptor_archives", dd as u64);
    let data = Arc::new(bytes);
    let seed = r.fork();
    let whats: Vec<(bool, How)> = (0..5).map(|_| (r.chance(1, 2), *r.pick(&[How::Plain, How::Checked, How::Pieces]))).collect();
    let plan = |i: usize| (whats[i % 5].0, whats[i % 5].1, false);
    let acts: Vec<(bool, Action)> = (0..5).map(|_| (r.chance(1, 2), *r.pick(&[Action::ReadDone, Action::ReadSkip, Action::PartSkip, Action::Skip, Action::PartDone]))).collect();
    let act = |i: usize| acts[i % 5];
    // Everything at once.
    let (src, _) = Source::new(data.clone(), Schedule::smooth(), r.fork());
    let a0 = run(view::seek_view(src, &mut seed.clone(), &mut plan.clone())).map_err(view::err);
    let (src, _) = Source::new(data.clone(), Schedule::smooth(), r.fork());
    let s0 = run(view::stream_view(src, &mut seed.clone(), &mut act.clone()));
    for v in [&a0] {
        if let Ok(v) = v {
            for c in &v.contents {
                if let Err(e) = c {
                    ensure!(!e.starts_with("HASH") && !e.starts_with("HARNESS") && !e.starts_with("COUNT"), "{e}");
                }
            }
        }
    }
    for k in 0..5 {
        let sched = Schedule::random(&mut r);
        let tokio = r.chance(1, 3);
        let w = |m: String| format!("{m}; archive of {} bytes, corrupted {corrupted}, tokio {tokio}, schedule {}", data.len(), sched.describe());
        case.eval();
        case.count("schedules", 2);
        case.count("seek_schedules", 1);
        case.count("stream_schedules", 1);
        case.count("tokio_schedules", tokio as u64 * 2);
        if r.chance(1, 2) {
            unasked_polls(r.u64() | 1);
        }
        let (src, p1) = Source::new(data.clone(), sched.clone(), r.fork());
        p1.set_budget(100_000 + 64 * data.len() as u64 + 4 * (8 << 20));
        let a = if tokio {
            run(async {
                let z = seek::ZipFileReader::with_tokio(src.compat()).await?;
                Ok(view::seek_view_open(z, &mut seed.clone(), &mut plan.clone()).await)
            })
            .map_err(view::err)
        } else {
            run(view::seek_view(src, &mut seed.clone(), &mut plan.clone())).map_err(view::err)
        };
        let known = |case: &mut Case, v: Verdict| match v {
            Err(e) if corrupted && deflate64::invalid_codes(&data) => {
                case.count("invalid_deflate64_differences", 1);
                case.finding("deflate64-invalid-code", e)
            }
            v => v,
        };
        known(case, same(&a0, &a).map_err(|e| w(format!("seekable reader: {e}"))))?;
        let (src, p2) = Source::new(data.clone(), sched.clone(), r.fork());
        p2.set_budget(100_000 + 64 * data.len() as u64 + 4 * (8 << 20));
        let s = if tokio {
            run(view::stream_view_open(stream::ZipFileReader::with_tokio(src.compat()), &mut seed.clone(), &mut act.clone()))
        } else {
            run(view::stream_view(src, &mut seed.clone(), &mut act.clone()))
        };
        known(case, same_stream(&s0, &s, &acts).map_err(|e| w(format!("stream reader: {e}; actions {acts:?}"))))?;
        case.count("unasked_polls", unasked_polls(0));
        let (c1, c2) = (p1.counters(), p2.counters());
        case.count("not_ready_answers", c1.pendings + c2.pendings);
        case.count("source_operations", c1.ops + c2.ops);
        if sched.max_chunk > 0 || c1.pendings > 0 {
            case.distinct(&[&data[..], &[k as u8], sched.describe().as_bytes()].concat());
        }
    }
    let d = format!("archive of {} bytes, {} entries by random access, {} forward, corrupted {corrupted}", data.len(), a0.as_ref().map_or(0, |a| a.contents.len()), s0.steps.len());
    case.sample(|| d);
    Ok(())
}
