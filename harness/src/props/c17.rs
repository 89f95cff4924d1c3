//! Random histories of operations on one seekable reader, against what a fresh reader delivers.
use crate::chaos::{Schedule, Source};
use crate::exec::{drive, run, run_tokio, unasked_polls};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{buf_size, EntryView, FileView};
use crate::zipref;
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, ZipEntryReader};
use async_zip::error::ZipError;
use async_zip::ZipFile;
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeek, AsyncSeekExt, Cursor, SeekFrom};
use std::sync::Arc;
use tokio_util::compat::FuturesAsyncReadCompatExt;

pub const PROP: Prop = Prop {
    id: "C17",
    level: "exploration",
    rule: "case = an archive (written by the crate, synthesised as another producer would, or corrupted) and a history of 4..40 operations on one seekable reader over a scheduled source (futures or tokio), a cursor (also cloned mid-way) or a real file: reading entries fully, verified, partly, past their end, abandoning them, with or without entry data, rejected indices, dropping opens and reads at a not-ready answer (and reading on with the same entry reader), moving the source behind the reader's back, taking the reader apart and rebuilding it, opening the source anew; ended by turning it into a single-entry reader; oracle: every outcome equals that of a fresh reader which does only this one thing; non-trivial = at least two operations on entries; distinct by (archive, history)",
    assumptions: &["corrupted archives with Deflate64 data using an over-subscribed Huffman code are passed over: they are a known finding of C10", "for entries whose data are corrupt only failing or not and the delivered prefix are compared, not the error", "sources differ in the offsets they can seek to: a corrupted archive which only some of them open is passed over"],
    cases: |t| t.pick(60000, 3000000),
    budget: |t| t.pick(60, 1200),
    threads: 8,
    run: case_run,
    must_observe: &["full_reads", "partial_reads", "rejected_indices", "cancelled_operations", "interrupted_reads", "reads_given_up", "moved_sources", "rebuilt_readers", "single_entry_readers", "source_histories", "tokio_histories", "cursor_histories", "file_histories", "cloned_readers", "corrupted_archives"],
    exhaustive: false,
};

/// What a fresh reader delivers for an entry: the bytes, and the error that ended it or prevented it.
#[derive(Clone, Debug)]
struct Fresh {
    open_err: Option<String>,
    data: Vec<u8>,
    read_err: bool,
    checked_ok: bool,
}

fn kind(e: &ZipError) -> String {
    let s = format!("{e:?}");
    s.split(['(', '{', ' ']).next().unwrap_or("").to_string()
}

fn fresh(bytes: &Arc<Vec<u8>>, i: usize) -> Fresh {
    run(async {
        let mut z = match seek::ZipFileReader::new(Cursor::new(&bytes[..])).await {
            Ok(z) => z,
            Err(e) => return Fresh { open_err: Some(kind(&e)), data: vec![], read_err: false, checked_ok: false },
        };
        let crc = z.file().entries()[i].crc32();
        let mut rd = match z.reader_without_entry(i).await {
            Ok(r) => r,
            Err(e) => return Fresh { open_err: Some(kind(&e)), data: vec![], read_err: false, checked_ok: false },
        };
        let mut data = vec![];
        let read_err = rd.read_to_end(&mut data).await.is_err();
        let checked_ok = !read_err && zipref::crc32(&data) == crc;
        Fresh { open_err: None, data, read_err, checked_ok }
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// entry, with entry data, verified
    Full(usize, bool, bool),
    /// entry, with entry data, bytes
    Part(usize, bool, usize),
    Open(usize, bool),
    Beyond(usize, bool),
    /// entry, not-ready answers before the drop, bytes wanted
    Cancel(usize, u64, usize),
    /// The source is moved, and read, behind the reader's back: to, bytes
    Move(u64, usize),
    /// entry; reads given up at a not-ready answer, the reader used on
    Interrupted(usize, u64),
    Rebuild,
    Anew,
    Clone,
}

fn agrees(f: &Fresh, i: usize, got: &[u8], failed: bool, complete: bool) -> Verdict {
    if complete && !failed {
        ensure!(!f.read_err, "entry {i} is read without error although a fresh reader fails");
        ensure!(got == f.data, "entry {i} delivers other data than a fresh reader ({} and {} bytes)", got.len(), f.data.len());
    } else if failed {
        ensure!(f.read_err, "reading entry {i} fails although a fresh reader succeeds");
    }
    // Before an error more or less may have been delivered.
    ensure!(f.data.starts_with(got) || (f.read_err && got.starts_with(&f.data)), "entry {i} delivers other data than a fresh reader");
    Ok(())
}

/// Reads up to n bytes in pieces.
async fn some<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, n: usize, r: &mut Rng) -> (Vec<u8>, bool, bool) {
    let mut v = vec![];
    let mut buf = vec![0; buf_size(r)];
    while v.len() < n {
        let k = buf.len().min(n - v.len());
        match rd.read(&mut buf[..k]).await {
            Ok(0) => return (v, false, true),
            Ok(k) => v.extend_from_slice(&buf[..k]),
            Err(_) => return (v, true, false),
        }
        if v.len() > 3000 && buf.len() < 2000 {
            buf.resize(2000 + r.below(3000), 0);
        }
    }
    (v, false, false)
}

/// Reads to the end, dropping reads which answer not-ready and asking for other amounts instead.
fn interrupted<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, seed: u64) -> (Vec<u8>, bool, u64) {
    let mut r = Rng::new(seed);
    let mut v = vec![];
    let mut buf = vec![0xA5; 4096];
    let mut given_up = 0;
    loop {
        let k = if v.len() > 6000 { 4096 } else { *r.pick(&[1usize, 2, 5, 60, 1000, 4096]) };
        let after = r.below(3) as u64;
        match drive(rd.read(&mut buf[..k]), (given_up < 20_000).then_some(after)).0 {
            None => given_up += 1,
            Some(Ok(0)) => return (v, false, given_up),
            Some(Ok(n)) => v.extend_from_slice(&buf[..n]),
            Some(Err(_)) => return (v, true, given_up),
        }
    }
}

struct Env<'a> {
    fresh: &'a [Fresh],
    file: &'a FileView,
    entries: &'a [EntryView],
}

fn opened<T>(x: Result<T, ZipError>, f: &Fresh, i: usize) -> Result<Option<T>, String> {
    match (x, &f.open_err) {
        (Ok(v), None) => Ok(Some(v)),
        (Err(e), Some(k)) => {
            ensure!(kind(&e) == *k, "opening entry {i} fails with {e:?}, a fresh reader with {k}");
            Ok(None)
        }
        (Ok(_), Some(k)) => bail!("entry {i} opens although a fresh reader fails with {k}"),
        (Err(e), None) => bail!("opening entry {i} fails although a fresh reader succeeds: {e:?}"),
    }
}

/// One operation; the counters to bump.
async fn step<R: AsyncBufRead + AsyncSeek + Unpin>(z: &mut seek::ZipFileReader<R>, op: Op, env: &Env<'_>, r: &mut Rng) -> Result<&'static str, String> {
    ensure!(FileView::of(z.file()) == *env.file, "the listing has changed");
    match op {
        Op::Full(i, true, verified) => {
            let f = &env.fresh[i];
            let Some(mut rd) = opened(z.reader_with_entry(i).await, f, i)? else { return Ok("failing_opens") };
            ensure!(EntryView::of(rd.entry()) == env.entries[i], "the reader of entry {i} carries other entry data");
            if verified {
                let mut v = vec![];
                let x = rd.read_to_end_checked(&mut v).await;
                ensure!(x.is_ok() == f.checked_ok, "the verified read of entry {i} gives {x:?}, a fresh reader {}", if f.checked_ok { "succeeds" } else { "fails" });
                if x.is_ok() {
                    ensure!(v == f.data, "entry {i} delivers other data than a fresh reader");
                }
            } else {
                let (v, failed, end) = some(&mut rd, usize::MAX, r).await;
                agrees(f, i, &v, failed, end)?;
                if !failed {
                    ensure!(rd.compute_hash() == zipref::crc32(&v), "the hash of entry {i} is wrong");
                    let mut b = [0; 9];
                    ensure!(matches!(rd.read(&mut b).await, Ok(0)), "entry {i} delivers data beyond its end");
                }
            }
            Ok("full_reads")
        }
        Op::Full(i, false, _) => {
            let f = &env.fresh[i];
            let Some(mut rd) = opened(z.reader_without_entry(i).await, f, i)? else { return Ok("failing_opens") };
            let (v, failed, end) = some(&mut rd, usize::MAX, r).await;
            agrees(f, i, &v, failed, end)?;
            Ok("full_reads")
        }
        Op::Part(i, we, n) => {
            let f = &env.fresh[i];
            let (v, failed, end) = if we {
                let Some(mut rd) = opened(z.reader_with_entry(i).await, f, i)? else { return Ok("failing_opens") };
                some(&mut rd, n, r).await
            } else {
                let Some(mut rd) = opened(z.reader_without_entry(i).await, f, i)? else { return Ok("failing_opens") };
                some(&mut rd, n, r).await
            };
            agrees(f, i, &v, failed, end)?;
            Ok("partial_reads")
        }
        Op::Open(i, we) => {
            let f = &env.fresh[i];
            if we {
                opened(z.reader_with_entry(i).await, f, i)?;
            } else {
                opened(z.reader_without_entry(i).await, f, i)?;
            }
            Ok("opened_only")
        }
        Op::Move(to, n) => {
            let s = z.inner_mut();
            if let Err(e) = s.seek(SeekFrom::Start(to)).await {
                bail!("HARNESS: moving the source: {e}");
            }
            let mut b = vec![0; n];
            let _ = s.read(&mut b).await;
            Ok("moved_sources")
        }
        Op::Beyond(i, we) => {
            let e = if we { z.reader_with_entry(i).await.err() } else { z.reader_without_entry(i).await.err() };
            ensure!(matches!(e, Some(ZipError::EntryIndexOutOfBounds)), "index {i} of {} entries is answered with {e:?}", env.fresh.len());
            Ok("rejected_indices")
        }
        _ => unreachable!(),
    }
}

fn history(r: &mut Rng, n: usize, max: usize, clone: bool) -> Vec<Op> {
    let favourite = if n > 0 { r.below(n) } else { 0 };
    (0..r.range(4, 40))
        .map(|_| {
            let i = if n == 0 { 0 } else if r.chance(1, 4) { favourite } else { r.below(n) };
            if n == 0 || r.chance(1, 10) {
                let far = [n, n + 1, n + r.below(1000), usize::MAX, usize::MAX - 1, 1 << 16, 1 << 32];
                return Op::Beyond(*r.pick(&far).max(&n), r.chance(1, 2));
            }
            match r.below(14) {
                12 => Op::Move(r.below(max + 200) as u64, r.below(300)),
                13 => Op::Interrupted(i, r.u64()),
                0..=3 => Op::Full(i, r.chance(1, 2), r.chance(1, 2)),
                4..=6 => Op::Part(i, r.chance(1, 2), if r.chance(1, 2) { r.below(8) } else { r.below(max + 2) }),
                7 => Op::Open(i, r.chance(1, 2)),
                8 | 9 => Op::Cancel(i, r.below(40) as u64, r.below(max + 2)),
                10 if clone => Op::Clone,
                10 => Op::Rebuild,
                _ => *r.pick(&[Op::Rebuild, Op::Anew]),
            }
        })
        .collect()
}

/// Runs the history; `reopen` gives a clone when the source can be cloned.
fn play<R: AsyncBufRead + AsyncSeek + Unpin>(case: &mut Case, z: seek::ZipFileReader<R>, ops: &[Op], env: &Env<'_>, r: &mut Rng, dup: Option<fn(&seek::ZipFileReader<R>) -> seek::ZipFileReader<R>>, last: usize) -> Verdict {
    let mut z = z;
    for (k, op) in ops.iter().enumerate() {
        let w = |e: String| format!("operation {k} ({op:?}) after {:?}: {e}", &ops[..k]);
        case.eval();
        let c = match *op {
            Op::Rebuild => {
                let f: ZipFile = z.file().clone();
                z = seek::ZipFileReader::from_raw_parts(z.into_inner(), f);
                "rebuilt_readers"
            }
            Op::Anew => {
                let inner = z.into_inner();
                z = run(seek::ZipFileReader::new(inner)).map_err(|e| w(format!("opening anew fails: {e:?}")))?;
                "sources_opened_anew"
            }
            Op::Clone => {
                let d = dup.expect("clonable")(&z);
                if r.chance(1, 2) {
                    z = d;
                } else {
                    let mut d = d;
                    if let Some(i) = (!env.fresh.is_empty()).then(|| r.below(env.fresh.len())) {
                        run(step(&mut d, Op::Full(i, true, true), env, r)).map_err(|e| w(format!("in the clone: {e}")))?;
                    }
                }
                "cloned_readers"
            }
            Op::Interrupted(i, x) => {
                let f = &env.fresh[i];
                match opened(run(z.reader_without_entry(i)), f, i).map_err(w)? {
                    None => "failing_opens",
                    Some(mut rd) => {
                        let (v, failed, given_up) = interrupted(&mut rd, x);
                        agrees(f, i, &v, failed, true).map_err(w)?;
                        case.count("reads_given_up", given_up);
                        "interrupted_reads"
                    }
                }
            }
            Op::Cancel(i, after, n) => {
                let f = &env.fresh[i];
                let we = r.chance(1, 2);
                let mut rr = r.fork();
                let (x, _) = drive(
                    async {
                        if we {
                            let Some(mut rd) = opened(z.reader_with_entry(i).await, f, i)? else { return Ok(()) };
                            let (v, failed, end) = some(&mut rd, n, &mut rr).await;
                            agrees(f, i, &v, failed, end)
                        } else {
                            let Some(mut rd) = opened(z.reader_without_entry(i).await, f, i)? else { return Ok(()) };
                            let (v, failed, end) = some(&mut rd, n, &mut rr).await;
                            agrees(f, i, &v, failed, end)
                        }
                    },
                    Some(after),
                );
                match x {
                    Some(v) => {
                        v.map_err(w)?;
                        "partial_reads"
                    }
                    None => "cancelled_operations",
                }
            }
            op => run(step(&mut z, op, env, r)).map_err(w)?,
        };
        case.count(c, 1);
    }
    // The end: a single-entry reader.
    case.eval();
    let w = |e: String| format!("into_entry({last}) after {ops:?}: {e}");
    if last >= env.fresh.len() {
        let e = run(z.into_entry(last)).err();
        ensure!(matches!(e, Some(ZipError::EntryIndexOutOfBounds)), "{}", w(format!("answered with {e:?}")));
        case.count("rejected_indices", 1);
        return Ok(());
    }
    let f = &env.fresh[last];
    if let Some(mut rd) = opened(run(z.into_entry(last)), f, last).map_err(w)? {
        let (v, failed, end) = run(some(&mut rd, usize::MAX, r));
        agrees(f, last, &v, failed, end).map_err(w)?;
        if !failed {
            ensure!(rd.compute_hash() == zipref::crc32(&v), "{}", w("wrong hash".into()));
        }
        case.count("single_entry_readers", 1);
    }
    Ok(())
}

/// The same over a real file. Operations are not cancelled here, and everything runs inside the runtime.
async fn play_file(path: &std::path::Path, ops: &[Op], env: &Env<'_>, r: &mut Rng) -> Result<Vec<&'static str>, String> {
    let open = |p: std::path::PathBuf| async move { tokio::io::BufReader::new(tokio::fs::File::open(p).await.expect("scratch file")) };
    let mut z = seek::ZipFileReader::with_tokio(open(path.into()).await).await.map_err(|e| format!("cannot be opened: {e:?}"))?;
    let mut out = vec![];
    for (k, op) in ops.iter().enumerate() {
        let w = |e: String| format!("operation {k} ({op:?}) after {:?}: {e}", &ops[..k]);
        out.push(match *op {
            Op::Rebuild | Op::Clone => {
                let f: ZipFile = z.file().clone();
                z = seek::ZipFileReader::from_raw_parts(z.into_inner(), f);
                "rebuilt_readers"
            }
            Op::Anew => {
                z = seek::ZipFileReader::new(z.into_inner()).await.map_err(|e| w(format!("{e:?}")))?;
                "sources_opened_anew"
            }
            Op::Interrupted(i, n) => step(&mut z, Op::Part(i, n % 2 == 0, usize::MAX), env, r).await.map_err(w)?,
            Op::Cancel(i, _, n) => step(&mut z, Op::Part(i, n % 2 == 0, n), env, r).await.map_err(w)?,
            op => step(&mut z, op, env, r).await.map_err(w)?,
        });
    }
    // The concurrent readers rebuilt from the same information.
    let n = env.fresh.len();
    let info = z.file().clone();
    let q = async_zip::tokio::read::fs::ZipFileReader::from_raw_parts(path, info.clone());
    let m = mem::ZipFileReader::from_raw_parts(std::fs::read(path).expect("scratch file"), info);
    ensure!(FileView::of(q.file()) == *env.file && FileView::of(m.file()) == *env.file, "a rebuilt reader has another listing");
    for i in 0..n {
        let f = &env.fresh[i];
        if let Some(mut rd) = opened(q.reader_without_entry(i).await, f, i)? {
            let (v, failed, end) = some(&mut rd, usize::MAX, r).await;
            agrees(f, i, &v, failed, end)?;
        }
        if let Some(mut rd) = opened(m.reader_without_entry(i).await, f, i)? {
            let (v, failed, end) = some(&mut rd, usize::MAX, r).await;
            agrees(f, i, &v, failed, end)?;
        }
    }
    for i in [n, n + 1, usize::MAX] {
        for e in [q.reader_without_entry(i).await.err(), q.reader_with_entry(i).await.err(), m.reader_without_entry(i).await.err(), m.reader_with_entry(i).await.err()] {
            ensure!(matches!(e, Some(ZipError::EntryIndexOutOfBounds)), "index {i} of {n} entries is answered with {e:?}");
        }
        out.push("rejected_indices");
    }
    out.push("rebuilt_readers");
    Ok(out)
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let max = if r.chance(1, 30) { 100_000 } else { 2500 };
    let (bytes, corrupted, _) = super::c10::any_archive(&mut r, max)?;
    let bytes = Arc::new(bytes);
    let Ok(z0) = run(seek::ZipFileReader::new(Cursor::new(bytes.to_vec()))) else {
        ensure!(corrupted, "the archive cannot be opened");
        return Ok(());
    };
    let file = FileView::of(z0.file());
    let n = file.entries.len();
    if n > 40 {
        return Ok(());
    }
    let fresh: Vec<Fresh> = (0..n).map(|i| fresh(&bytes, i)).collect();
    let longest = fresh.iter().map(|f| f.data.len()).max().unwrap_or(0);
    if longest > 4 << 20 {
        return Ok(());
    }
    if corrupted && crate::deflate64::invalid_codes(&bytes) {
        case.count("set_aside_invalid_deflate64", 1);
        return Ok(());
    }
    case.count("corrupted_archives", corrupted as u64);
    let style = r.below(7);
    let ops = history(&mut r, n, longest, style == 3 || style == 4);
    let last = if n == 0 || r.chance(1, 20) { n + r.below(3) } else { r.below(n) };
    let env = Env { fresh: &fresh, file: &file, entries: &file.entries };
    case.say(|| format!("style {style}, {n} entries, {ops:?}"));
    case.distinct(&[&bytes[..], format!("{style}{ops:?}").as_bytes()].concat());
    let what = format!("{n} entries, style {style}, history {ops:?}");
    let sched = if r.chance(1, 5) { Schedule::smooth() } else { Schedule::random(&mut r) };
    if r.chance(1, 2) && style != 6 {
        unasked_polls(r.u64() | 1);
    }
    match style {
        0 | 1 => {
            case.count("source_histories", 1);
            let (src, _) = Source::new(bytes.clone(), sched, r.fork());
            let z = match run(seek::ZipFileReader::new(src)) {
                Err(_) if corrupted => return Ok(()),
                x => x.map_err(|e| format!("cannot be opened: {e:?}"))?,
            };
            play(case, z, &ops, &env, &mut r, None, last)?;
        }
        2 => {
            case.count("tokio_histories", 1);
            let (src, _) = Source::new(bytes.clone(), sched, r.fork());
            let z = match run(seek::ZipFileReader::with_tokio(src.compat())) {
                Err(_) if corrupted => return Ok(()),
                x => x.map_err(|e| format!("cannot be opened: {e:?}"))?,
            };
            play(case, z, &ops, &env, &mut r, None, last)?;
        }
        3 | 4 => {
            case.count("cursor_histories", 1);
            play(case, z0, &ops, &env, &mut r, Some(|z| z.clone()), last)?;
        }
        5 => {
            // a buffered reader between: its buffer has to follow the seeks
            case.count("buffered_histories", 1);
            let (src, _) = Source::new(bytes.clone(), sched, r.fork());
            let b = futures_lite::io::BufReader::with_capacity(r.range(1, 300), src);
            let z = match run(seek::ZipFileReader::new(b)) {
                Err(_) if corrupted => return Ok(()),
                x => x.map_err(|e| format!("cannot be opened: {e:?}"))?,
            };
            play(case, z, &ops, &env, &mut r, None, last)?;
        }
        _ => {
            case.count("file_histories", 1);
            let f = super::c01::scratch_file("c17");
            super::write_scratch(&f, &bytes);
            let played = run_tokio(play_file(&f, &ops, &env, &mut r));
            if corrupted && played.as_ref().is_err_and(|e| e.starts_with("cannot be opened")) {
                return Ok(());
            }
            for c in played? {
                case.eval();
                case.count(c, 1);
            }
            let _ = std::fs::remove_file(&f);
        }
    }
    case.sample(|| what);
    Ok(())
}
