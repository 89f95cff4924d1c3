//! What readers, writers and entries hold is given back: memory and file handles.
use crate::alloc::{live, measure};
use crate::chaos::{Fault, Schedule, Sink, Source, Store};
use crate::exec::{drive, run, run_tokio};
use crate::gen::{self, Call, Limits, Mode, Program, Spec};
use crate::mutate;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view;
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, stream, ZipEntryReader};
use async_zip::base::write::ZipFileWriter;
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeek, AsyncWrite, AsyncWriteExt};
use std::io::ErrorKind;
use std::path::Path;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio_util::compat::{FuturesAsyncReadCompatExt, FuturesAsyncWriteCompatExt};

pub const PROP: Prop = Prop {
    id: "C24",
    level: "exploration",
    rule: "case = (a) a history on an in-memory, seekable or forward-only reader over a good or mutated archive and a scheduled or failing source (entries read, verified, abandoned, futures dropped at a not-ready answer, clones, stepping given up) or on a writer over a scheduled or failing sink (entries finished, abandoned, cancelled, refused; closed or dropped), replayed until the heap has settled, after which three replays in a row must not leave more live heap bytes than they found; (b) 24 equal rounds on one live reader, 40 equal entries of a forward-only archive, or the same entries written with short and with long contents, between which live heap bytes must not grow, nor from one to the next of 12 unrelated archives read or written one after the other and dropped; (c) a file-system reader with entry readers opened, read, abandoned and cancelled, whose handles to the file are listed: never more than entry readers alive, all of them read-only, and none once everything was dropped, with the file unchanged; non-trivial = history with at least one entry; distinct by history and archive",
    assumptions: &["memory allocated inside the C codecs (zstd, liblzma) is not visible to the Rust allocator", "the file-system reader's files are closed by tokio's blocking threads, for which up to 20 s are allowed"],
    cases: |t| t.pick(7000, 400000),
    budget: |t| t.pick(60, 1200),
    threads: 8,
    run: case_run,
    must_observe: &["unseen_archives", "histories_released", "entries_abandoned", "operations_cancelled", "operations_failed", "writers_dropped", "rounds_compared", "stream_steps_compared", "written_lengths_compared", "handles_listed", "handles_released", "failed_opens_released"],
    exhaustive: false,
};

/// What a history did; no heap.
#[derive(Clone, Copy, Default, Debug)]
struct Tally {
    entries: u64,
    abandoned: u64,
    cancelled: u64,
    failed: u64,
    dropped: u64,
}

impl Tally {
    fn report(&self, case: &mut Case) {
        case.count("entries", self.entries);
        case.count("entries_abandoned", self.abandoned);
        case.count("operations_cancelled", self.cancelled);
        case.count("operations_failed", self.failed);
        case.count("writers_dropped", self.dropped);
    }
}

/// Forgets the wakers the last operation left with the executor.
fn settle() {
    run(async {});
}

fn released(case: &mut Case, f: &dyn Fn() -> Tally) -> Verdict {
    let mut kept = vec![];
    for k in 0..8 {
        let (t, u) = measure(|| {
            let t = f();
            settle();
            t
        });
        kept.push(u.kept);
        if k >= 1 && u.kept <= 0 {
            t.report(case);
            case.count("histories_released", 1);
            case.max("allocations_of_a_history", u.allocations);
            case.eval();
            return Ok(());
        }
    }
    bail!("{} bytes of heap stay allocated each time after everything was dropped ({kept:?} over the replays)", kept[7]);
}

/// Some use of an open entry reader; the rest of it is abandoned.
fn use_entry<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, r: &mut Rng, t: &mut Tally) -> bool {
    t.entries += 1;
    let n = *r.pick(&[0usize, 1, 40, 3000, 40_000, 100_000]);
    let mut buf = [0u8; 700];
    let mut got = 0;
    let cancel = r.chance(1, 3);
    while got < n {
        let k = r.range(1, buf.len());
        let after = r.below(3) as u64;
        match drive(rd.read(&mut buf[..k]), (cancel && t.cancelled < 200).then_some(after)).0 {
            None => {
                t.cancelled += 1;
                if r.chance(1, 8) {
                    break;
                }
            }
            Some(Ok(0)) => return true,
            Some(Ok(k)) => got += k,
            Some(Err(_)) => {
                t.failed += 1;
                return false;
            }
        }
    }
    t.abandoned += 1;
    false
}

fn seek_history<R: AsyncBufRead + AsyncSeek + Unpin>(z: &mut seek::ZipFileReader<R>, steps: usize, r: &mut Rng, t: &mut Tally) {
    let n = z.file().entries().len();
    for _ in 0..steps {
        let i = r.below(n + 1);
        let after = r.chance(1, 5).then_some(r.below(4) as u64);
        if r.chance(1, 2) {
            match drive(z.reader_with_entry(i), after).0 {
                None => t.cancelled += 1,
                Some(Err(_)) => t.failed += 1,
                Some(Ok(mut rd)) if r.chance(1, 3) => match drive(
                    async {
                        let mut v = vec![];
                        rd.read_to_end_checked(&mut v).await
                    },
                    after.map(|a| a * 3),
                )
                .0
                {
                    None => t.cancelled += 1,
                    Some(Err(_)) => t.failed += 1,
                    Some(Ok(_)) => t.entries += 1,
                },
                Some(Ok(mut rd)) => drop(use_entry(&mut rd, r, t)),
            }
        } else {
            match drive(z.reader_without_entry(i), after).0 {
                None => t.cancelled += 1,
                Some(Err(_)) => t.failed += 1,
                Some(Ok(mut rd)) => drop(use_entry(&mut rd, r, t)),
            }
        }
    }
}

fn mem_history(z: &mem::ZipFileReader, steps: usize, r: &mut Rng, t: &mut Tally) {
    let n = z.file().entries().len();
    for _ in 0..steps {
        let i = r.below(n + 1);
        let copy = z.clone();
        if r.chance(1, 2) {
            match run(copy.reader_with_entry(i)) {
                Err(_) => t.failed += 1,
                Ok(mut rd) => drop(use_entry(&mut rd, r, t)),
            };
        } else {
            match run(copy.reader_without_entry(i)) {
                Err(_) => t.failed += 1,
                Ok(mut rd) => drop(use_entry(&mut rd, r, t)),
            };
        }
    }
}

fn stream_history<R: AsyncBufRead + Unpin>(mut z: stream::ZipFileReader<stream::Ready<R>>, r: &mut Rng, t: &mut Tally) {
    macro_rules! go {
        ($next:ident) => {{
            let after = r.chance(1, 12).then_some(r.below(4) as u64);
            let mut rd = match drive(z.$next(), after).0 {
                None => {
                    t.cancelled += 1;
                    return;
                }
                Some(Err(_)) => {
                    t.failed += 1;
                    return;
                }
                Some(Ok(None)) => return,
                Some(Ok(Some(rd))) => rd,
            };
            let complete = if r.chance(3, 4) { use_entry(rd.reader_mut(), r, t) } else { false };
            if r.chance(1, 15) {
                t.abandoned += 1;
                return;
            }
            let after = r.chance(1, 12).then_some(r.below(4) as u64);
            let next = if complete && r.chance(1, 2) { drive(rd.done(), after).0 } else { drive(rd.skip(), after).0 };
            match next {
                None => {
                    t.cancelled += 1;
                    return;
                }
                Some(Err(_)) => {
                    t.failed += 1;
                    return;
                }
                Some(Ok(x)) => x,
            }
        }};
    }
    loop {
        z = if r.chance(1, 2) { go!(next_with_entry) } else { go!(next_without_entry) };
    }
}

fn schedule(r: &mut Rng) -> Schedule {
    if r.chance(1, 2) {
        Schedule::smooth()
    } else {
        Schedule { max_chunk: r.range(50, 3000), ..Schedule::random(r) }
    }
}

fn some_archive(r: &mut Rng) -> Result<(Vec<u8>, bool), String> {
    if r.chance(1, 2) {
        let max = if r.chance(1, 8) { 70_000 } else { 3000 };
        let mut p = gen::program(r, &Limits { entries: 5, content: max, name: 40, plain_names: false });
        for s in &mut p.entries {
            if matches!(s.method, 14 | 95) && r.chance(2, 3) {
                s.method = 93;
            }
        }
        return Ok((gen::archive(&p)?, true));
    }
    let (mut b, l) = mutate::base(r);
    if r.chance(2, 3) {
        mutate::mutate(r, &mut b, l.as_ref());
    }
    Ok((b, false))
}

fn reading(case: &mut Case, r: &mut Rng) -> Verdict {
    let (b, _) = some_archive(r)?;
    let data = Arc::new(b);
    let sched = schedule(r);
    let seed = r.u64();
    let kind = r.below(4);
    let steps = r.range(1, 6);
    let fault = r.chance(1, 3).then(|| Fault { at: r.below(60) as u64, times: *r.pick(&[1, 3, u64::MAX]), kind: *r.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock]), zero: false });
    let d = data.clone();
    let what = format!("reader {}, {steps} steps, source {}, fault {fault:?}, archive of {} bytes", ["mem", "seek", "stream", "seek over tokio"][kind], sched.describe(), data.len());
    let f = move || {
        let mut r = Rng::new(seed);
        let mut t = Tally::default();
        if kind == 0 {
            match run(mem::ZipFileReader::new((*d).clone())) {
                Ok(z) => mem_history(&z, steps, &mut r, &mut t),
                Err(_) => t.failed += 1,
            }
            return t;
        }
        let (src, probe) = Source::new(d.clone(), sched.clone(), r.fork());
        probe.set_fault(fault.clone());
        probe.set_budget(3_000_000);
        if kind == 2 {
            if r.chance(1, 3) {
                stream_history(stream::ZipFileReader::with_tokio(src.compat()), &mut r, &mut t);
            } else {
                stream_history(stream::ZipFileReader::new(src), &mut r, &mut t);
            }
            return t;
        }
        let after = r.chance(1, 8).then_some(r.below(6) as u64);
        macro_rules! go {
            ($open:expr) => {
                match drive($open, after).0 {
                    None => t.cancelled += 1,
                    Some(Err(_)) => t.failed += 1,
                    Some(Ok(mut z)) => {
                        seek_history(&mut z, steps, &mut r, &mut t);
                        let n = z.file().entries().len();
                        match r.below(4) {
                            0 => drop(z.into_inner()),
                            1 => match run(z.into_entry(r.below(n + 1))) {
                                Ok(mut rd) => drop(use_entry(&mut rd, &mut r, &mut t)),
                                Err(_) => t.failed += 1,
                            },
                            _ => drop(z),
                        }
                    }
                }
            };
        }
        if kind == 3 {
            go!(seek::ZipFileReader::with_tokio(src.compat()));
        } else {
            go!(seek::ZipFileReader::new(src));
        }
        t
    };
    released(case, &f).map_err(|e| format!("{e}; {what}"))?;
    drop(f);
    ensure!(Arc::strong_count(&data) == 1, "the source is still held after everything was dropped; {what}");
    case.distinct(format!("{what}{seed}").as_bytes());
    case.sample(|| what);
    Ok(())
}

async fn partial<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, s: &Spec, n: usize) -> async_zip::error::Result<()> {
    let mut e = w.write_entry_stream(s.builder()).await?;
    e.write_all(&s.content[..n]).await?;
    Ok(())
}

fn write_history<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, p: &Program, r: &mut Rng, t: &mut Tally) {
    let mut w = gen::configure(w, p);
    for s in &p.entries {
        t.entries += 1;
        if r.chance(1, 4) && s.call.streamed() && s.method != 9 {
            match run(partial(&mut w, s, r.below(s.content.len() + 1))) {
                Ok(()) => t.abandoned += 1,
                Err(_) => t.failed += 1,
            }
            continue;
        }
        let after = r.chance(1, 3).then_some(r.below(12) as u64);
        match drive(gen::write_one(&mut w, s), after).0 {
            None => t.cancelled += 1,
            Some(Err(_)) => t.failed += 1,
            Some(Ok(())) => {}
        }
    }
    match r.below(4) {
        0 => {
            t.dropped += 1;
            drop(w);
        }
        1 => match drive(w.close(), Some(r.below(3) as u64)).0 {
            None => t.cancelled += 1,
            Some(Err(_)) => t.failed += 1,
            Some(Ok(x)) => drop(x),
        },
        _ => match run(w.close()) {
            Err(_) => t.failed += 1,
            Ok(x) => drop(x),
        },
    }
}

fn writing(case: &mut Case, r: &mut Rng) -> Verdict {
    let max = if r.chance(1, 8) { 70_000 } else { 2000 };
    let mut p = gen::program(r, &Limits { entries: 4, content: max, name: 30, plain_names: false });
    for s in &mut p.entries {
        if matches!(s.method, 14 | 95) && r.chance(2, 3) {
            s.method = 8;
        }
        match r.below(25) {
            0 => s.comment = view::Str::text(&"x".repeat(66_000)),
            1 => s.name = view::Str::text(&"n".repeat(65_536)),
            2 if matches!(s.call, Call::Whole | Call::Stream) => s.method = 9,
            _ => {}
        }
    }
    let sched = schedule(r);
    let seed = r.u64();
    let tokio = r.chance(1, 3);
    let fault = r.chance(1, 2).then(|| Fault { at: r.below(40) as u64, times: *r.pick(&[1, 3, u64::MAX]), kind: ErrorKind::Other, zero: r.chance(1, 4) });
    let what = format!("writing, tokio {tokio}, sink {}, fault {fault:?}, {}", sched.describe(), p.describe());
    let q = p.clone();
    let f = move || {
        let mut r = Rng::new(seed);
        let mut t = Tally::default();
        let (sink, probe) = Sink::with_store(Null(0), sched.clone(), r.fork());
        probe.set_fault(fault.clone());
        if tokio {
            write_history(ZipFileWriter::with_tokio(sink.compat_write()), &q, &mut r, &mut t);
        } else {
            write_history(ZipFileWriter::new(sink), &q, &mut r, &mut t);
        }
        t
    };
    released(case, &f).map_err(|e| format!("{e}; {what}"))?;
    if !p.entries.is_empty() {
        case.distinct(format!("{what}{seed}").as_bytes());
    }
    Ok(())
}

/// A sink that keeps nothing.
struct Null(u64);
impl Store for Null {
    fn append(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
    fn size(&self) -> u64 {
        self.0
    }
}

/// Live heap bytes after each of some equal rounds: growing throughout is a leak.
fn steady(levels: &[i64]) -> Verdict {
    let late = &levels[levels.len() / 2..];
    ensure!(late[late.len() - 1] <= late[0], "live heap bytes grow from round to round: {levels:?}");
    Ok(())
}

/// One live reader, used the same way again and again.
fn rounds(case: &mut Case, r: &mut Rng) -> Verdict {
    let (b, _) = some_archive(r)?;
    let data = Arc::new(b);
    let sched = schedule(r);
    let seed = r.u64();
    let kind = r.below(2);
    let mut levels: Vec<i64> = Vec::with_capacity(24);
    let mut t = Tally::default();
    let what = format!("reader {}, source {}, archive of {} bytes", ["mem", "seek"][kind], sched.describe(), data.len());
    measure(|| {
        if kind == 0 {
            let Ok(z) = run(mem::ZipFileReader::new((*data).clone())) else { return };
            for _ in 0..24 {
                mem_history(&z, 3, &mut Rng::new(seed), &mut t);
                t.cancelled = 0;
                settle();
                levels.push(live());
            }
        } else {
            let (src, _) = Source::new(data.clone(), Schedule::smooth(), Rng::new(seed));
            let Ok(mut z) = run(seek::ZipFileReader::new(src)) else { return };
            for _ in 0..24 {
                seek_history(&mut z, 3, &mut Rng::new(seed), &mut t);
                t.cancelled = 0;
                settle();
                levels.push(live());
            }
        }
    });
    if levels.is_empty() {
        return Ok(());
    }
    t.report(case);
    case.eval();
    case.count("rounds_compared", levels.len() as u64);
    steady(&levels).map_err(|e| format!("{e}; {what}"))
}

/// Stepping through many equal entries.
fn steps(case: &mut Case, r: &mut Rng) -> Verdict {
    let n = 40;
    let mut p = Program { mode: Mode::Auto, comment: None, entries: vec![] };
    let max = *r.pick(&[100usize, 3000, 20_000]);
    let s = gen::spec(r, &Limits { entries: 1, content: max, name: 30, plain_names: true }, 0);
    let s = Spec { method: if matches!(s.method, 9 | 14 | 95) { 8 } else { s.method }, call: Call::Whole, ..s };
    for _ in 0..n {
        p.entries.push(s.clone());
    }
    let data = Arc::new(gen::archive(&p)?);
    let seed = r.u64();
    let with = r.chance(1, 2);
    let part = r.below(3);
    let mut levels: Vec<i64> = Vec::with_capacity(n);
    let what = format!("{n} times {}, with entry data {with}, reading {part}", s.describe());
    let (res, _) = measure(|| -> Result<(), async_zip::error::ZipError> {
        let (src, _) = Source::new(data.clone(), Schedule::smooth(), Rng::new(seed));
        let mut z = stream::ZipFileReader::new(src);
        macro_rules! go {
            ($next:ident) => {
                while let Some(mut rd) = run(z.$next())? {
                    let mut buf = [0u8; 100];
                    match part {
                        0 => {}
                        1 => drop(run(rd.reader_mut().read(&mut buf))?),
                        _ => while run(rd.reader_mut().read(&mut buf))? > 0 {},
                    }
                    z = run(rd.skip())?;
                    levels.push(live());
                }
            };
        }
        if with {
            go!(next_with_entry);
        } else {
            go!(next_without_entry);
        }
        Ok(())
    });
    res.map_err(|e| format!("stepping failed: {e:?}; {what}"))?;
    ensure!(levels.len() == n, "{} of {n} entries; {what}", levels.len());
    case.eval();
    case.count("stream_steps_compared", n as u64);
    steady(&levels).map_err(|e| format!("{e}; {what}"))
}

/// What a writer holds does not depend on the data that went through it.
fn lengths(case: &mut Case, r: &mut Rng) -> Verdict {
    let mut s = gen::spec(r, &Limits { entries: 1, content: 10, name: 30, plain_names: true }, 0);
    s.flush_every = 0;
    s.stale = None;
    s.chunks = vec![];
    if matches!(s.method, 9 | 14 | 95) {
        s.method = 0;
    }
    let n = r.range(2, 8);
    let abandon = r.chance(1, 4) && s.call.streamed();
    // Live heap bytes of the writer after n and after 4 n entries, of short and of long contents.
    let mut levels = [[0i64; 2]; 2];
    for (k, len) in [10usize, 50_000].into_iter().enumerate() {
        let s = Spec { content: Rng::new(7).bytes(len), ..s.clone() };
        let mut rr = Rng::new(9);
        let (sink, _) = Sink::with_store(Null(0), Schedule::smooth(), rr.fork());
        let (res, _) = measure(|| {
            let mut w = ZipFileWriter::new(sink);
            for i in 1..=4 * n {
                if abandon {
                    run(partial(&mut w, &s, len))?;
                } else {
                    run(gen::write_one(&mut w, &s))?;
                }
                if i == n {
                    levels[k][0] = live();
                }
            }
            levels[k][1] = live();
            Ok::<(), async_zip::error::ZipError>(())
        });
        res.map_err(|e| format!("writing failed: {e:?}; {}", s.describe()))?;
    }
    case.eval();
    case.count("written_lengths_compared", 1);
    case.max("writer_heap_per_entry", levels[0][1].max(0) as u64 / (4 * n) as u64);
    let growth = levels.map(|l| l[1] - l[0]);
    ensure!(growth[1] <= growth[0], "from {n} to {} entries the heap bytes a writer holds grow by {} with contents of 10 bytes but by {} with contents of 50000 bytes; abandoned {abandon}, {}", 4 * n, growth[0], growth[1], s.describe());
    Ok(())
}

/// Open descriptors of the file, and whether all of them are read-only.
fn handles(path: &Path) -> (usize, bool) {
    let mut n = 0;
    let mut read_only = true;
    let Ok(dir) = std::fs::read_dir("/proc/self/fd") else { return (0, true) };
    for e in dir.flatten() {
        if std::fs::read_link(e.path()).is_ok_and(|l| l == path) {
            n += 1;
            if let Ok(info) = std::fs::read_to_string(Path::new("/proc/self/fdinfo").join(e.file_name())) {
                let flags = info.lines().find_map(|l| l.strip_prefix("flags:")).and_then(|f| u64::from_str_radix(f.trim(), 8).ok());
                read_only &= flags.is_none_or(|f| f & 3 == 0);
            }
        }
    }
    (n, read_only)
}

/// The number of open descriptors, once it has come down to `most` or 20 s have passed.
fn eventually(path: &Path, most: usize) -> (usize, bool) {
    let start = Instant::now();
    loop {
        let (n, ro) = handles(path);
        if n <= most || start.elapsed() > Duration::from_secs(20) {
            return (n, ro);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}

fn files(case: &mut Case, r: &mut Rng) -> Verdict {
    let (b, _) = some_archive(r)?;
    let path = super::c01::scratch_file("c24");
    super::write_scratch(&path, &b);
    let path = std::fs::canonicalize(&path).unwrap_or(path);
    let what = format!("archive of {} bytes by path", b.len());
    let res = files_in(case, r, &path, &b);
    let after = std::fs::read(&path);
    let _ = std::fs::remove_file(&path);
    res.map_err(|e| format!("{e}; {what}"))?;
    ensure!(after.is_ok_and(|a| a == b), "the file was changed; {what}");
    Ok(())
}

fn files_in(case: &mut Case, r: &mut Rng, path: &Path, b: &[u8]) -> Verdict {
    let z = match run_tokio(fs::ZipFileReader::new(path)) {
        Ok(z) => z,
        Err(_) => {
            let (n, _) = eventually(path, 0);
            ensure!(n == 0, "{n} handles to the file stay open after it was refused");
            case.count("failed_opens_released", 1);
            case.eval();
            return Ok(());
        }
    };
    let entries = z.file().entries().len();
    let mut kept = vec![];
    let mut t = Tally::default();
    for _ in 0..r.range(1, 12) {
        let i = r.below(entries + 1);
        let copy = z.clone();
        let n = *r.pick(&[0usize, 1, 5000]);
        let patience = *r.pick(&[0u64, 20, 200]);
        let cancel = r.chance(1, 5);
        let opened = run_tokio(async {
            let work = async {
                let mut rd = copy.reader_without_entry(i).await?;
                let mut buf = [0u8; 500];
                let mut got = 0;
                while got < n {
                    match rd.read(&mut buf).await {
                        Ok(0) | Err(_) => break,
                        Ok(k) => got += k,
                    }
                }
                Ok::<_, async_zip::error::ZipError>(rd)
            };
            if cancel {
                tokio::time::timeout(Duration::from_micros(patience), work).await.ok()
            } else {
                Some(work.await)
            }
        });
        match opened {
            None => t.cancelled += 1,
            Some(Err(_)) => t.failed += 1,
            Some(Ok(rd)) => {
                t.entries += 1;
                kept.push(rd);
            }
        }
        while kept.len() > 5 || (!kept.is_empty() && r.chance(1, 3)) {
            let k = r.below(kept.len());
            drop(kept.swap_remove(k));
            t.abandoned += 1;
        }
        let (open, ro) = eventually(path, kept.len());
        case.count("handles_listed", open as u64);
        case.max("handles_at_once", open as u64);
        ensure!(open <= kept.len(), "{open} handles to the file are open while {} entry readers are alive", kept.len());
        ensure!(ro, "the file was opened for writing");
    }
    // An entry reader may outlive the archive's reader.
    if r.chance(1, 2) {
        drop(z);
        drop(kept);
    } else {
        drop(kept);
        let (open, _) = eventually(path, 0);
        ensure!(open == 0, "{open} handles to the file are open while no entry reader is alive");
        drop(z);
    }
    let (open, _) = eventually(path, 0);
    ensure!(open == 0, "{open} handles to the file stay open after everything was dropped");
    t.report(case);
    case.count("handles_released", 1);
    case.eval();
    if t.entries > 0 {
        case.distinct(b);
    }
    Ok(())
}

/// What was never seen before leaves nothing behind either, so nothing is kept per name, entry or archive.
fn unseen(case: &mut Case, r: &mut Rng) -> Verdict {
    const ROUNDS: usize = 12;
    let mut seen = vec![];
    // What is initialised once, at first use, does not come back.
    for _ in 0..4 {
        let mut archives = Vec::with_capacity(ROUNDS);
        let mut programs = Vec::with_capacity(ROUNDS);
        for _ in 0..ROUNDS {
            let mut p = gen::program(r, &Limits { entries: 4, content: 300, name: 40, plain_names: false });
            for s in &mut p.entries {
                if matches!(s.method, 14 | 95) {
                    s.method = 93;
                }
            }
            let b = if r.chance(2, 3) { gen::archive(&p)? } else { some_archive(r)?.0 };
            archives.push(Arc::new(b));
            programs.push(p);
        }
        let seed = r.u64();
        let kind = r.below(4);
        let mut levels: Vec<i64> = Vec::with_capacity(ROUNDS);
        let mut t = Tally::default();
        measure(|| {
            for k in 0..ROUNDS {
                let mut r = Rng::new(seed.wrapping_add(k as u64));
                if kind == 3 {
                    let (sink, _) = Sink::with_store(Null(0), Schedule::smooth(), r.fork());
                    write_history(ZipFileWriter::new(sink), &programs[k], &mut r, &mut t);
                } else if kind == 0 {
                    match run(mem::ZipFileReader::new((*archives[k]).clone())) {
                        Ok(z) => mem_history(&z, 6, &mut r, &mut t),
                        Err(_) => t.failed += 1,
                    }
                } else {
                    let (src, probe) = Source::new(archives[k].clone(), Schedule::smooth(), r.fork());
                    probe.set_budget(3_000_000);
                    if kind == 2 {
                        stream_history(stream::ZipFileReader::new(src), &mut r, &mut t);
                    } else {
                        match run(seek::ZipFileReader::new(src)) {
                            Ok(mut z) => seek_history(&mut z, 6, &mut r, &mut t),
                            Err(_) => t.failed += 1,
                        }
                    }
                }
                settle();
                levels.push(live());
            }
        });
        t.report(case);
        case.eval();
        case.count("unseen_archives", ROUNDS as u64);
        let late = &levels[ROUNDS / 2..];
        if late[late.len() - 1] <= late[0] {
            return Ok(());
        }
        seen.push((["mem", "seek", "stream", "writer"][kind], levels));
    }
    bail!("live heap bytes after each of some unrelated archives, of which nothing is left: {seen:?}")
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    for _ in 0..2 {
        reading(case, &mut r)?;
        writing(case, &mut r)?;
    }
    if case.idx % 8 == 5 {
        unseen(case, &mut r)?;
    }
    match case.idx % 4 {
        0 => rounds(case, &mut r),
        1 => steps(case, &mut r),
        2 => lengths(case, &mut r),
        _ => files(case, &mut r),
    }
}
