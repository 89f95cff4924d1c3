//! A fault or a cancellation at every operation of the sink.
use crate::chaos::{Fault, Schedule, Sink, SinkProbe};
use crate::exec::{drive, run};
use crate::gen::{self, Call, Limits, Mode, Program, Spec};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{self, How};
use crate::zipref;
use crate::{bail, ensure};
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use std::io::ErrorKind;

pub const PROP: Prop = Prop {
    id: "C13",
    level: "fault_enumeration",
    rule: "case = a write program (1..5 uniquely named entries, all calls and methods) over a scheduled sink; repeated with a fault (error of various kinds, or a write accepting nothing; once, thrice, for good until healed) at every operation of the sink (250 sampled ones beyond that), followed by healing or further faults, and with the writing future of an entry dropped at every not-ready answer, and with an entry among them which has to be refused (name or comment too long, method without encoder); refused, failed, cancelled and abandoned entries are left behind and writing goes on to close; oracle: a call during which a fault struck fails; when all calls succeeded no fault struck and the archive passes the structural checker; whenever close succeeded, every entry whose calls succeeded is listed in order with its metadata and content, and any other listed entry has exactly its own content; non-trivial = every injected fault or cancellation; distinct by (program, fault point)",
    assumptions: &["an entry writer is not used further after an error, except that writes of stored streamed entries are repeated from where they failed", "an Interrupted error may be answered by retrying", "entry data contain no ZIP64 end-of-directory locator (left over from a failed last entry it could precede the end record and be taken for one)"],
    cases: |t| t.pick(2200, 150000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["faults_reported", "zero_writes_reported", "cancellations", "abandoned_entries", "closes_failed", "archives_recovered", "surviving_entries", "retried_writes", "refused_entries"],
    exhaustive: false,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Outcome {
    Done,
    Failed,
    Cancelled,
}

/// What goes wrong, and when.
struct Trouble {
    first: Option<Fault>,
    /// (entry, not-ready answers before the drop)
    cancel: Option<(usize, u64)>,
    /// entry that is opened, partly written and dropped
    abandon: Option<usize>,
    tokio: bool,
    retry: bool,
    /// (entry, why): an entry which cannot be written whatever the sink does
    refused: Option<(usize, usize)>,
}

/// Makes an entry one which has to be refused: sooner or later, before or after bytes of it are on the sink.
fn spoil(s: &Spec, why: usize) -> Spec {
    let mut s = s.clone();
    let long = "x".repeat(66_000);
    match why {
        0 => s.comment = view::Str::text(&long),
        1 => s.name = view::Str { raw: [&s.name.raw[..], long.as_bytes()].concat(), utf8: true, alt: None },
        // Too long for the extra field of its text.
        2 => s.comment = view::Str { raw: long.into_bytes(), utf8: true, alt: Some(b"short".to_vec()) },
        3 => s.comment = view::Str { raw: b"short".to_vec(), utf8: true, alt: Some(long.into_bytes()) },
        _ => {
            s.method = 9;
            s.call = if s.call.streamed() { Call::Stream } else { Call::Whole };
        }
    }
    s
}

/// Streams a stored entry, repeating failed writes.
async fn stubborn<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, s: &Spec, probe: &SinkProbe, retried: &mut u64) -> Result<(), String> {
    let mut e = w.write_entry_stream(s.builder()).await.map_err(|e| format!("{e:?}"))?;
    for (a, b) in gen::chunk_ranges(s.content.len(), &s.chunks) {
        let mut at = a;
        while at < b {
            match e.write(&s.content[at..b]).await {
                Ok(0) => {
                    *retried += 1;
                    probe.set_fault(None);
                }
                Ok(n) => at += n,
                Err(_) => {
                    *retried += 1;
                    if *retried > 4 {
                        probe.set_fault(None);
                    }
                }
            }
        }
    }
    e.close().await.map_err(|e| format!("{e:?}"))
}

async fn partial<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, s: &Spec, n: usize) -> Result<(), String> {
    let mut e = w.write_entry_stream(s.builder()).await.map_err(|e| format!("{e:?}"))?;
    e.write_all(&s.content[..n]).await.map_err(|e| format!("{e:?}"))?;
    Err("abandoned".into())
}

fn session<W: AsyncWrite + Unpin>(case: &mut Case, r: &mut Rng, w: ZipFileWriter<W>, probe: &SinkProbe, p: &Program, t: &Trouble) -> Verdict {
    let mut w = gen::configure(w, p);
    probe.set_fault(t.first.clone());
    let soft = |p: &SinkProbe| p.0.lock().unwrap().fault.as_ref().is_some_and(|f| f.kind == ErrorKind::Interrupted);
    let mut out = vec![];
    let mut more = r.below(3);
    let mut any_soft = soft(probe);
    for (i, s) in p.entries.iter().enumerate() {
        let before = probe.counters().faults;
        let cancel = t.cancel.filter(|c| c.0 == i).map(|c| c.1);
        let mut retried = 0;
        let stub = t.retry && s.call == Call::Stream && s.method == 0;
        let n = r.below(s.content.len() + 1);
        let doomed = t.refused.filter(|d| d.0 == i);
        let spoiled = doomed.map(|d| spoil(s, d.1));
        let s = spoiled.as_ref().unwrap_or(s);
        let stub = stub && doomed.is_none();
        let res = drive(
            async {
                if t.abandon == Some(i) && s.method != 9 {
                    partial(&mut w, s, n).await
                } else if stub {
                    stubborn(&mut w, s, probe, &mut retried).await
                } else {
                    gen::write_one(&mut w, s).await.map_err(|e| format!("{e:?}"))
                }
            },
            cancel,
        )
        .0;
        let struck = probe.counters().faults > before;
        let zero = probe.0.lock().unwrap().fault.as_ref().is_some_and(|f| f.zero);
        match res {
            None => {
                case.count("cancellations", 1);
                out.push(Outcome::Cancelled);
            }
            Some(Err(e)) => {
                let ab = e == "abandoned";
                ensure!(struck || ab || doomed.is_some(), "writing entry {i} ({}) fails without a fault: {e}", s.describe());
                case.count("refused_entries", (doomed.is_some() && !struck && !ab) as u64);
                case.count("abandoned_entries", ab as u64);
                case.count("faults_reported", struck as u64);
                case.count("zero_writes_reported", (struck && zero) as u64);
                out.push(Outcome::Failed);
            }
            Some(Ok(())) => {
                ensure!(!struck || soft(probe) || any_soft || retried > 0, "writing entry {i} ({}) succeeds although the sink failed", s.describe());
                ensure!(doomed.is_none(), "entry {i} ({}) is accepted although it cannot be represented ({doomed:?})", s.describe());
                case.count("retried_writes", retried);
                out.push(Outcome::Done);
            }
        }
        if struck {
            // Heal, or fail again soon.
            if more > 0 {
                more -= 1;
                let ops = probe.counters().ops;
                probe.set_fault(Some(Fault { at: ops + r.below(25) as u64, times: *r.pick(&[1, 2, 5]), kind: *r.pick(&[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::WriteZero, ErrorKind::BrokenPipe, ErrorKind::InvalidInput]), zero: r.chance(1, 4) }));
                any_soft |= soft(probe);
            } else {
                probe.set_fault(None);
            }
        }
    }
    if t.first.as_ref().is_none_or(|f| f.at <= probe.counters().ops) && r.chance(3, 4) {
        probe.set_fault(None);
    }
    let before = probe.counters().faults;
    let closed = run(w.close());
    let struck = probe.counters().faults > before;
    if let Err(e) = closed {
        ensure!(struck, "closing fails without a fault: {e:?}; outcomes {out:?}");
        case.count("closes_failed", 1);
        return Ok(());
    }
    ensure!(!struck || soft(probe), "closing succeeds although the sink failed");
    let bytes = probe.bytes();
    if out.iter().all(|o| *o == Outcome::Done) {
        super::c04::strict(&bytes, p).map_err(|e| format!("all calls succeeded but {e}"))?;
    } else {
        case.count("archives_recovered", 1);
    }
    // What is listed.
    let mut rr = r.fork();
    let v = match run(view::mem_view(bytes.clone(), &mut rr, &mut |_| (true, How::Checked, false))) {
        Ok(v) => v,
        Err(e) => bail!("closed successfully but unreadable: {e:?}; outcomes {out:?}"),
    };
    let a = zipref::parse(&bytes, p.comment.as_ref().map_or(0, |c| c.len())).map_err(|e| format!("independent parser: {e}; outcomes {out:?}"))?;
    zipref::check_layout(&bytes, &a, true).map_err(|e| format!("{e}; outcomes {out:?}"))?;
    let mut next = 0;
    for (k, e) in v.file.entries.iter().enumerate() {
        let Some(i) = (next..p.entries.len()).find(|i| p.entries[*i].name.raw == e.name.raw) else {
            bail!("listed entry {k} ({}) is none of the written ones in order; outcomes {out:?}", e.name.short());
        };
        for j in next..i {
            ensure!(out[j] != Outcome::Done, "entry {j} was written successfully but is not listed; outcomes {out:?}");
        }
        let spoiled = t.refused.filter(|d| d.0 == i).map(|d| spoil(&p.entries[i], d.1));
        let s = spoiled.as_ref().unwrap_or(&p.entries[i]);
        super::c02::same_meta(e, &s.expect(e.csize), &format!("entry {i} ({:?})", out[i]))?;
        match &v.contents[k] {
            Ok(d) => ensure!(*d == s.content, "entry {i} ({:?}, {}) reads back other content ({} bytes); outcomes {out:?}", out[i], s.describe(), d.len()),
            Err(x) => bail!("entry {i} ({:?}, {}) cannot be read back: {x}; outcomes {out:?}", out[i], s.describe()),
        }
        case.count("surviving_entries", 1);
        next = i + 1;
    }
    for j in next..p.entries.len() {
        ensure!(out[j] != Outcome::Done, "entry {j} was written successfully but is not listed; outcomes {out:?}");
    }
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let max = if r.chance(1, 15) { 40_000 } else { 600 };
    let mut p = gen::program(&mut r, &Limits { entries: 5, content: max, name: 20, plain_names: true });
    if p.entries.is_empty() {
        p.entries.push(gen::spec(&mut r, &Limits { entries: 1, content: max, name: 8, plain_names: true }, 0));
    }
    for (i, s) in p.entries.iter_mut().enumerate() {
        s.name = view::Str::text(&format!("entry-{i}"));
        // Left-over data of a failed last entry must not pass for a ZIP64 locator right before the end record.
        while let Some(k) = s.content.windows(4).position(|w| w == zipref::Z64LOC.to_le_bytes()) {
            s.content[k] = 0;
        }
        if matches!(s.method, 14 | 95) && !r.chance(1, 6) {
            s.method = 8;
        }
    }
    let retry = r.chance(1, 3);
    if retry {
        for s in &mut p.entries {
            if s.call == Call::Stream && r.chance(2, 3) {
                s.method = 0;
            }
        }
    }
    if p.mode == Mode::Force && r.chance(1, 2) {
        p.mode = Mode::Auto;
    }
    let sched = if r.chance(1, 2) { Schedule::smooth() } else { Schedule { max_chunk: r.range(20, 3000), ..Schedule::random(&mut r) } };
    let rng = r.fork();
    // The undisturbed run counts the operations, and the not-ready answers of each entry.
    let (sink, probe) = Sink::new(sched.clone(), rng.clone());
    run(gen::execute(ZipFileWriter::new(sink), &p)).map(|_| ())?;
    let n = probe.counters().ops;
    let cap = 250;
    let points: Vec<u64> = if n <= cap { (0..n).collect() } else { (0..cap).map(|_| r.below(n as usize) as u64).collect() };
    for at in points {
        let kind = if r.chance(1, 3) { *r.pick(&[ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::Interrupted]) } else { *r.pick(&crate::chaos::KINDS) };
        let f = Fault { at, times: *r.pick(&[1, 1, 3, u64::MAX]), kind, zero: r.chance(1, 5) };
        let t = Trouble { first: Some(f.clone()), cancel: None, abandon: if r.chance(1, 6) { Some(r.below(p.entries.len())) } else { None }, tokio: r.chance(1, 3), retry, refused: if r.chance(1, 12) { Some((r.below(p.entries.len()), r.below(5))) } else { None } };
        let what = format!("fault {f:?} of {n} operations, abandon {:?}, refused {:?}, tokio {}, retry {retry}, sink {}, {}", t.abandon, t.refused, t.tokio, sched.describe(), p.describe());
        case.say(|| what.clone());
        trial(case, &mut r, &sched, &rng, &p, &t).map_err(|e| format!("{e}; {what}"))?;
        case.distinct(format!("{at}{f:?}{}", p.describe()).as_bytes());
    }
    // Cancellation needs not-ready answers.
    let sched = Schedule { max_chunk: *r.pick(&[0usize, 40, 300, 2000]), vary: false, pending: *r.pick(&[60u8, 160]), wake_now: 128, burst: 1 };
    for i in 0..p.entries.len() {
        let (sink, _) = Sink::new(sched.clone(), rng.clone());
        let mut w = gen::configure(ZipFileWriter::new(sink), &p);
        let mut answers = 0;
        for s in &p.entries[..=i] {
            answers = drive(gen::write_one(&mut w, s), None).1.pendings;
        }
        let points: Vec<u64> = if answers <= 40 { (0..answers).collect() } else { (0..40).map(|_| r.below(answers as usize) as u64).collect() };
        for k in points {
            let first = if r.chance(1, 5) { Some(Fault { at: r.below(n as usize + 1) as u64, times: 1, kind: ErrorKind::Other, zero: false }) } else { None };
            let t = Trouble { first, cancel: Some((i, k)), abandon: if r.chance(1, 6) { Some(r.below(p.entries.len())) } else { None }, tokio: r.chance(1, 3), retry, refused: if r.chance(1, 12) { Some((r.below(p.entries.len()), r.below(5))) } else { None } };
            let what = format!("entry {i} cancelled at not-ready answer {k} of {answers}, fault {:?}, abandon {:?}, refused {:?}, tokio {}, sink {}, {}", t.first, t.abandon, t.refused, t.tokio, sched.describe(), p.describe());
            case.say(|| what.clone());
            trial(case, &mut r, &sched, &rng, &p, &t).map_err(|e| format!("{e}; {what}"))?;
            case.distinct(format!("c{i}{k}{}", p.describe()).as_bytes());
        }
    }
    let d = format!("{n} operations: {}", p.describe());
    case.sample(|| d);
    Ok(())
}

fn trial(case: &mut Case, r: &mut Rng, sched: &Schedule, rng: &Rng, p: &Program, t: &Trouble) -> Verdict {
    case.eval();
    let (sink, probe) = Sink::new(sched.clone(), rng.clone());
    if t.tokio {
        use tokio_util::compat::FuturesAsyncWriteCompatExt;
        session(case, r, ZipFileWriter::with_tokio(sink.compat_write()), &probe, p, t)
    } else {
        session(case, r, ZipFileWriter::new(sink), &probe, p, t)
    }
}
