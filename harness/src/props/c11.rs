//! Writing under every kind of acceptance schedule.
use crate::chaos::{Schedule, Sink};
use crate::exec::{drive, run, unasked_polls};
use crate::gen::{self, Call, Limits, Mode, Program};
use crate::report::{Case, Prop, Verdict};
use crate::view::{self, FileView, How};
use crate::zipref;
use crate::{bail, ensure};
use async_zip::base::write::ZipFileWriter;
use futures_lite::io::AsyncWriteExt;
use tokio_util::compat::FuturesAsyncWriteCompatExt;

pub const PROP: Prop = Prop {
    id: "C11",
    level: "exploration",
    rule: "case = a write program executed once into memory and 4 times, futures and tokio flavours, into sinks with random partial acceptance (1 byte and up) and not-ready answers (bursts, woken at once or later), the last two also with other chunk sizes for the streamed data; oracle: structural checker, read-back of all entries, equality of listing and metadata, byte identity unless a streamed entry is compressed, no close ever reaching the sink; plus one streamed entry flushed in between under the schedule: the sink was flushed after the last byte and its bytes decode to everything accepted so far; plus one streamed entry whose writes and flushes are given up when not ready and replaced by other data: the archive holds exactly what was accepted; half of the programs are also polled without reason and with changing wakers; non-trivial = program with entries under a schedule that cut a write or answered not-ready; distinct by (program, schedule)",
    assumptions: &["recovery after a flush is judged for Stored, Deflate, Zstandard and xz; bzip2 and LZMA streams have no byte-aligned flush points, so for bzip2 only the flush of the sink is checked", "the encoders for bzip2 and xz refuse to go on after a flush that was given up, with an error", "encoders may cut their blocks differently for other chunkings, so compressed streamed data are compared decoded"],
    cases: |t| t.pick(6000, 400000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["schedules", "not_ready_answers", "sink_operations", "tokio_schedules", "byte_identical", "decoded_identical", "rechunked", "flushes_checked", "flush_deflate", "flush_zstd", "flush_bzip2", "flush_xz", "flush_stored", "shutdown_then_close", "writes_given_up", "unasked_polls"],
    exhaustive: false,
};

/// Byte identity is promised: no entry whose encoder sees the schedule.
fn deterministic(p: &Program) -> bool {
    p.entries.iter().all(|s| s.call != Call::Stream || s.method == 0)
}

fn masked(p: &Program, f: &FileView) -> FileView {
    let mut f = f.clone();
    for (s, e) in p.entries.iter().zip(&mut f.entries) {
        if s.call == Call::Stream && s.method != 0 {
            e.csize = 0;
        }
    }
    let sizes: Vec<u64> = f.offsets.iter().map(|o| o.1).collect();
    f.offsets = sizes.into_iter().map(|s| (0, s)).collect();
    f
}

/// A streamed entry, flushed along the way.
fn flushing(case: &mut Case, r: &mut crate::rng::Rng) -> Verdict {
    let method = *r.pick(&[0u16, 8, 8, 8, 12, 93, 93, 95]);
    let max = if r.chance(1, 10) { 60_000 } else { 3000 };
    let mut s = gen::spec(r, &Limits { entries: 1, content: max, name: 10, plain_names: true }, 0);
    s.method = method;
    s.call = if method == 0 && r.chance(1, 2) { Call::StreamPre } else { Call::Stream };
    s.level = None;
    let mode = *r.pick(&[Mode::Auto, Mode::Forbid]);
    let sched = Schedule::random(r);
    let (sink, probe) = Sink::new(sched.clone(), r.fork());
    let mut w = ZipFileWriter::new(sink);
    if mode == Mode::Forbid {
        w = w.force_no_zip64();
    }
    let shutdown = r.chance(1, 2);
    let steps = r.range(1, 4);
    let name = match method {
        0 => "flush_stored",
        8 => "flush_deflate",
        12 => "flush_bzip2",
        93 => "flush_zstd",
        _ => "flush_xz",
    };
    let what = format!("{} under {}", s.describe(), sched.describe());
    let mut checked = 0u64;
    let res: Verdict = run(async {
        let before = gen::write_one(&mut w, &gen::Spec { call: Call::Whole, method: 0, ..s.clone() }).await;
        if let Err(e) = before {
            bail!("writing failed: {e:?}");
        }
        let entry = async_zip::ZipEntryBuilder::from(s.builder().build()).crc32(zipref::crc32(&s.content)).uncompressed_size(s.content.len() as u64);
        let opened = match s.call {
            Call::StreamPre => w.write_entry_stream_precompressed(entry).await,
            _ => w.write_entry_stream(entry).await,
        };
        let mut e = match opened {
            Ok(e) => e,
            Err(e) => bail!("opening the entry failed: {e:?}"),
        };
        let start = probe.size() as usize;
        let mut at = 0;
        for k in 0..steps {
            let to = if k + 1 == steps { s.content.len() } else { at + r.below(s.content.len() - at + 1) };
            for (a, b) in gen::chunk_ranges(to - at, &s.chunks) {
                if let Err(x) = e.write_all(&s.content[at + a..at + b]).await {
                    bail!("writing failed: {x:?}");
                }
            }
            at = to;
            let flushes = probe.counters().flushes;
            if let Err(x) = e.flush().await {
                bail!("flushing failed: {x:?}");
            }
            let (size, last) = {
                let st = probe.0.lock().unwrap();
                (st.data.len() as u64, st.flushed_at.last().copied())
            };
            ensure!(probe.counters().flushes > flushes, "flushing the entry writer did not flush the sink");
            ensure!(last == Some(size), "the sink was flushed at {last:?} but holds {size} bytes after the flush");
            let got = zipref::decompress_prefix(method, &probe.bytes()[start..]);
            ensure!(method == 12 || got == s.content[..at], "after a flush {} of {at} accepted bytes can be recovered from the sink (as much is right: {:?})", got.len(), got.iter().zip(&s.content).position(|(a, b)| a != b));
            checked += 1;
        }
        if shutdown {
            if let Err(x) = AsyncWriteExt::close(&mut e).await {
                bail!("shutting the entry writer down failed: {x:?}");
            }
            ensure!(probe.counters().closes == 0, "shutting an entry writer down closed the sink");
        }
        if let Err(x) = e.close().await {
            bail!("closing the entry failed: {x:?}");
        }
        ensure!(probe.counters().closes == 0, "finishing an entry closed the sink");
        if let Err(e) = w.close().await {
            bail!("closing failed: {e:?}");
        }
        Ok(())
    });
    res.map_err(|e| format!("{e}; {what}"))?;
    ensure!(probe.counters().closes == 0, "closing the archive closed the sink; {what}");
    case.eval();
    case.count("flushes_checked", checked);
    case.count(name, checked);
    case.count("shutdown_then_close", shutdown as u64);
    let p = Program { mode, comment: None, entries: vec![gen::Spec { call: Call::Whole, method: 0, ..s.clone() }, s] };
    super::c04::strict(&probe.bytes(), &p).map_err(|e| format!("after flushes: {e}; {what}"))?;
    Ok(())
}

/// A streamed entry written by someone who gives up writes and flushes that are not ready and then writes other data: what
/// was not accepted must leave no trace.
fn indecisive(case: &mut Case, r: &mut crate::rng::Rng) -> Verdict {
    let method = *r.pick(&[0u16, 0, 8, 8, 12, 93, 95]);
    let mut s = gen::spec(r, &Limits { entries: 1, content: 10, name: 10, plain_names: true }, 0);
    s.method = method;
    s.call = Call::Stream;
    s.level = None;
    s.stale = None;
    let total = if r.chance(1, 10) { 60_000 } else { 4000 };
    let mut sched = Schedule::random(r);
    sched.pending = sched.pending.max(100);
    let tokio = r.chance(1, 3);
    let w = |m: String| format!("{m}; giving up writes, tokio {tokio}, {} under {}", s.describe(), sched.describe());
    let (sink, probe) = Sink::new(sched.clone(), r.fork());
    let mut accepted = vec![];
    let (mut dropped, mut flushes) = (0u64, 0u64);
    macro_rules! go {
        ($z:expr) => {{
            let mut z = $z;
            {
                let mut e = run(z.write_entry_stream(s.builder().build())).map_err(|e| w(format!("opening the entry failed: {e:?}")))?;
                while accepted.len() < total {
                    let n = r.range(1, 3000);
                    let chunk = if r.chance(1, 2) { r.bytes(n) } else { vec![r.u8(); n] };
                    match drive(e.write(&chunk), (dropped < 5000).then_some(r.below(4) as u64)).0 {
                        None => dropped += 1,
                        Some(Ok(0)) => bail!("{}", w("nothing was accepted".into())),
                        Some(Ok(n)) => accepted.extend_from_slice(&chunk[..n]),
                        Some(Err(x)) => bail!("{}", w(format!("writing failed: {x:?}"))),
                    }
                    if r.chance(1, 12) {
                        match drive(e.flush(), (![12, 95].contains(&method)).then_some(r.below(4) as u64)).0 {
                            None => dropped += 1,
                            Some(x) => {
                                x.map_err(|x| w(format!("flushing failed: {x:?}")))?;
                                flushes += 1;
                            }
                        }
                    }
                }
                run(e.close()).map_err(|x| w(format!("closing the entry failed: {x:?}")))?;
            }
            run(z.close()).map_err(|x| w(format!("closing failed: {x:?}")))?;
        }};
    }
    if tokio {
        go!(ZipFileWriter::with_tokio(sink.compat_write()));
    } else {
        go!(ZipFileWriter::new(sink));
    }
    case.eval();
    case.count("writes_given_up", dropped);
    case.count("full_flushes_in_between", flushes);
    let p = Program { mode: Mode::Auto, comment: None, entries: vec![gen::Spec { content: accepted, ..s.clone() }] };
    super::c04::strict(&probe.bytes(), &p).map(|_| ()).map_err(w)
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    flushing(case, &mut r)?;
    indecisive(case, &mut r)?;
    if r.chance(1, 2) {
        unasked_polls(r.u64() | 1);
    }
    let max = if r.chance(1, 30) { 70_000 } else { 2500 };
    let mut p = gen::program(&mut r, &Limits { entries: 4, content: max, name: 20, plain_names: false });
    if r.chance(1, 2) {
        for s in &mut p.entries {
            if s.call == Call::Stream {
                s.method = 0;
            }
        }
    }
    let base = gen::archive(&p)?;
    let mut rr = r.fork();
    let v0 = run(view::mem_view(base.clone(), &mut rr, &mut |_| (true, How::Checked, false))).map_err(|e| format!("{e:?}"))?;
    let f0 = masked(&p, &v0.file);
    for k in 0..4 {
        let mut q = p.clone();
        if k >= 2 {
            for s in &mut q.entries {
                s.chunks = match r.below(3) {
                    0 => vec![],
                    1 => vec![r.range(1, 30)],
                    _ => (0..3).map(|_| r.range(0, 3000)).collect(),
                };
                s.flush_every = *r.pick(&[0, 0, 1, 2]);
            }
            case.count("rechunked", 1);
        }
        let sched = Schedule::random(&mut r);
        let tokio = r.chance(1, 2);
        let w = |m: String| format!("{m}; tokio {tokio}, sink {}, {}", sched.describe(), q.describe());
        let (sink, probe) = Sink::new(sched.clone(), r.fork());
        if tokio {
            run(gen::execute(ZipFileWriter::with_tokio(sink.compat_write()), &q)).map(|_| ()).map_err(|e| w(format!("under the schedule: {e}")))?;
        } else {
            run(gen::execute(ZipFileWriter::new(sink), &q)).map(|_| ()).map_err(|e| w(format!("under the schedule: {e}")))?;
        }
        let c = probe.counters();
        case.eval();
        case.count("schedules", 1);
        case.count("tokio_schedules", tokio as u64);
        case.count("not_ready_answers", c.pendings);
        case.count("sink_operations", c.ops);
        ensure!(c.closes == 0, "{}", w("the sink was closed".into()));
        let bytes = probe.bytes();
        if deterministic(&q) {
            ensure!(bytes == base, "{}", w(format!("the bytes differ from those of an unrestricted sink at {:?} ({} and {} bytes)", bytes.iter().zip(&base).position(|(a, b)| a != b), bytes.len(), base.len())));
            case.count("byte_identical", !q.entries.is_empty() as u64);
        } else {
            super::c04::strict(&bytes, &q).map_err(|e| w(e))?;
            let v = run(view::mem_view(bytes, &mut rr, &mut |_| (true, How::Checked, false))).map_err(|e| w(format!("{e:?}")))?;
            ensure!(masked(&q, &v.file) == f0, "{}", w(format!("the listing differs: {:?} and {:?}", f0, v.file)));
            ensure!(v.contents == v0.contents, "{}", w("contents differ".into()));
            case.count("decoded_identical", 1);
        }
        if !q.entries.is_empty() && (sched.max_chunk > 0 || c.pendings > 0) {
            case.distinct(format!("{}{}", q.describe(), sched.describe()).as_bytes());
        }
    }
    case.count("unasked_polls", unasked_polls(0));
    let d = p.describe();
    case.sample(|| d);
    Ok(())
}
