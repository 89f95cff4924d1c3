//! Many entry readers over one shared reader, interleaved step by step and across threads.
use crate::ensure;
use crate::exec::{run, run_tokio};
use crate::gen::{self, Limits, Program};
use crate::report::{Case, Prop, Verdict};
use crate::rng::{hash_bytes, Rng};
use crate::view::{buf_size, EntryView};
use crate::zipref;
use async_zip::base::read::{mem, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::tokio::read::fs;
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use std::future::{poll_fn, Future};
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, OnceLock};
use std::task::Poll;

pub const PROP: Prop = Prop {
    id: "C16",
    level: "exploration",
    rule: "case = an archive of 1..8 entries with contents that tell them apart, opened once by the in-memory or the file-system reader; 2..12 (thorough: up to 64) entry readers on it or its clones, several on the same entry, are driven (a) by a deterministic scheduler that interleaves their opens and reads step by step, (b) as tasks of an 8-thread tokio runtime, or (c) by operating-system threads sharing a reference, some of which open small entries of one reader thousands of times at full speed; readers read in random pieces, finish with a checksum-verified read or compare the hash, are abandoned half-way or have their future dropped while opening or reading; oracle: every delivered byte, the reported hash and the entry data of each reader belong to its own entry; the log of (sequence number, reader) of all reads gives the interleaving observed; non-trivial = at least two readers overlapped; distinct by observed interleaving and archive",
    assumptions: &["the file is not changed while it is read", "thread interleavings are those the operating system and the injected yields and sleeps produce"],
    cases: |t| t.pick(12000, 400000),
    budget: |t| t.pick(60, 1200),
    threads: 8,
    run: case_run,
    must_observe: &["readers_finished", "readers_abandoned", "futures_dropped", "mem_cases", "fs_cases", "step_cases", "task_cases", "thread_cases", "switches_between_readers", "checked_reads", "racing_opens"],
    exhaustive: false,
};

#[derive(Clone)]
enum Handle {
    Mem(mem::ZipFileReader),
    Fs(fs::ZipFileReader),
}

struct Shared {
    seq: AtomicU64,
    active: AtomicU64,
    overlap: AtomicU64,
}

struct Truth {
    entries: Vec<EntryView>,
    contents: Vec<Vec<u8>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Checked,
    Pieces,
    Abandon,
}

#[derive(Default)]
struct Done {
    finished: bool,
    abandoned: bool,
    checked: bool,
    events: Vec<u64>,
}

struct Leave<'a>(&'a Shared);
impl Drop for Leave<'_> {
    fn drop(&mut self) {
        self.0.active.fetch_sub(1, Relaxed);
    }
}

async fn pause(r: &mut Rng, real: bool) {
    if real && r.chance(1, 12) {
        tokio::time::sleep(std::time::Duration::from_micros(r.below(300) as u64)).await;
        return;
    }
    let mut n = r.below(3);
    poll_fn(|cx| {
        if n == 0 {
            return Poll::Ready(());
        }
        n -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await
}

/// Some pieces of an entry, then the end of it as asked.
async fn consume<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, want: &[u8], r: &mut Rng, s: &Shared, d: &mut Done, end: End, real: bool, w: &str) -> Result<Vec<u8>, String> {
    let stop = match end {
        End::Pieces => usize::MAX,
        _ => r.below(want.len() + 1),
    };
    let mut got: Vec<u8> = vec![];
    let mut buf = vec![0u8; buf_size(r).max(want.len() / 60).max(1)];
    while got.len() < stop {
        pause(r, real).await;
        d.events.push(s.seq.fetch_add(1, Relaxed));
        let k = rd.read(&mut buf).await.map_err(|e| format!("{w}: read failed after {} bytes: {e:?}", got.len()))?;
        ensure!(got.len() + k <= want.len() && buf[..k] == want[got.len()..got.len() + k], "{w}: wrong bytes delivered at {}", got.len());
        if k == 0 {
            ensure!(got.len() == want.len(), "{w}: ends after {} of {} bytes", got.len(), want.len());
            break;
        }
        got.extend_from_slice(&buf[..k]);
        s.overlap.fetch_max(s.active.load(Relaxed), Relaxed);
    }
    Ok(got)
}

async fn with<R: AsyncBufRead + Unpin>(mut rd: ZipEntryReader<'_, R, WithEntry<'_>>, i: usize, t: &Truth, mut r: Rng, s: &Shared, d: &mut Done, end: End, real: bool, w: &str) -> Result<(), String> {
    ensure!(EntryView::of(rd.entry()) == t.entries[i], "{w}: carries the data of another entry: {:?}", EntryView::of(rd.entry()));
    let got = consume(&mut rd, &t.contents[i], &mut r, s, d, end, real, w).await?;
    match end {
        End::Checked => {
            let mut rest = vec![];
            d.events.push(s.seq.fetch_add(1, Relaxed));
            rd.read_to_end_checked(&mut rest).await.map_err(|e| format!("{w}: verified read after {} bytes failed: {e:?}", got.len()))?;
            ensure!(rest == t.contents[i][got.len()..], "{w}: wrong bytes in the rest");
            d.checked = true;
        }
        End::Pieces => {
            let h = rd.compute_hash();
            ensure!(h == zipref::crc32(&got), "{w}: hash is {h:#x}");
        }
        End::Abandon => {
            d.abandoned = true;
            return Ok(());
        }
    }
    d.finished = true;
    Ok(())
}

async fn without<R: AsyncBufRead + Unpin>(mut rd: ZipEntryReader<'_, R, WithoutEntry>, i: usize, t: &Truth, mut r: Rng, s: &Shared, d: &mut Done, end: End, real: bool, w: &str) -> Result<(), String> {
    let end = if end == End::Checked { End::Pieces } else { end };
    let got = consume(&mut rd, &t.contents[i], &mut r, s, d, end, real, w).await?;
    if end == End::Abandon {
        d.abandoned = true;
        return Ok(());
    }
    let h = rd.compute_hash();
    ensure!(h == zipref::crc32(&got), "{w}: hash is {h:#x}");
    d.finished = true;
    Ok(())
}

/// One user of the shared reader: a few entries, one after another.
async fn actor(h: &Handle, jobs: Vec<(usize, bool, End)>, t: &Truth, mut r: Rng, s: &Shared, real: bool, id: usize) -> Result<Vec<Done>, String> {
    let mut out = vec![];
    for (i, we, end) in jobs {
        let mut d = Done::default();
        pause(&mut r, real).await;
        s.active.fetch_add(1, Relaxed);
        let _leave = Leave(s);
        let w = format!("reader {id} on entry {i} ({end:?}, entry data {we})");
        d.events.push(s.seq.fetch_add(1, Relaxed));
        let o = |e| format!("{w}: opening failed: {e:?}");
        let rr = r.fork();
        match (h, we) {
            (Handle::Mem(z), true) => with(z.reader_with_entry(i).await.map_err(o)?, i, t, rr, s, &mut d, end, real, &w).await?,
            (Handle::Mem(z), false) => without(z.reader_without_entry(i).await.map_err(o)?, i, t, rr, s, &mut d, end, real, &w).await?,
            (Handle::Fs(z), true) => with(z.reader_with_entry(i).await.map_err(o)?, i, t, rr, s, &mut d, end, real, &w).await?,
            (Handle::Fs(z), false) => without(z.reader_without_entry(i).await.map_err(o)?, i, t, rr, s, &mut d, end, real, &w).await?,
        }
        out.push(d);
    }
    Ok(out)
}

type Actor<'a> = Pin<Box<dyn Future<Output = Result<Vec<Done>, String>> + 'a>>;

/// Polls its children in random order; a doomed child is dropped after some polls.
async fn interleave(mut kids: Vec<(Option<Actor<'_>>, Option<u32>)>, mut r: Rng) -> (Vec<Result<Vec<Done>, String>>, u64) {
    let mut out = vec![];
    let mut dropped = 0;
    poll_fn(|cx| {
        let mut again = false;
        for _ in 0..kids.len() {
            let k = r.below(kids.len());
            let (kid, doom) = &mut kids[k];
            let Some(f) = kid else { continue };
            if let Some(n) = doom {
                if *n == 0 {
                    *kid = None;
                    dropped += 1;
                    continue;
                }
                *n -= 1;
            }
            match f.as_mut().poll(cx) {
                Poll::Ready(v) => {
                    out.push(v);
                    *kid = None;
                }
                Poll::Pending => {}
            }
            again = true;
        }
        if kids.iter().all(|k| k.0.is_none()) {
            return Poll::Ready(());
        }
        // Children not chosen this time have to be polled, too.
        let _ = again;
        cx.waker().wake_by_ref();
        Poll::Pending
    })
    .await;
    (out, dropped)
}

fn threads_runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_multi_thread().worker_threads(8).max_blocking_threads(8).enable_all().build().expect("tokio runtime"))
}

fn archive(r: &mut Rng) -> Result<(Program, Vec<u8>), String> {
    let big = r.chance(1, 15);
    let l = Limits { entries: 8, content: if big { 400_000 } else { 9000 }, name: 20, plain_names: true };
    let mut p = gen::program(r, &l);
    if p.entries.is_empty() {
        p.entries.push(gen::spec(r, &l, 0));
    }
    for (i, s) in p.entries.iter_mut().enumerate() {
        // Every 4 bytes tell whose they are and where.
        if r.chance(2, 3) {
            for (k, c) in s.content.chunks_mut(4).enumerate() {
                let v = (hash_bytes(&[i as u8, (k / 3) as u8, (k >> 11) as u8])) as u32;
                let b = v.to_le_bytes();
                c.copy_from_slice(&b[..c.len()]);
            }
        }
        if matches!(s.method, 14 | 95) && r.chance(2, 3) {
            s.method = 93;
        }
    }
    // Equal lengths are the hardest to tell apart.
    if p.entries.len() > 1 && r.chance(1, 2) {
        let n = p.entries.iter().map(|s| s.content.len()).max().unwrap();
        for s in &mut p.entries {
            s.content.resize(n, 0x5A);
        }
    }
    let b = gen::archive(&p)?;
    Ok((p, b))
}

/// Threads that open entries of one shared reader as fast as they can and look at the first bytes of each.
fn race(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let n = r.range(2, 6);
    let l = Limits { entries: n, content: 200, name: 12, plain_names: true };
    let mut p = Program { comment: None, entries: vec![], ..gen::program(&mut r, &l) };
    for i in 0..n {
        let mut s = gen::spec(&mut r, &l, i);
        s.method = *r.pick(&[0u16, 0, 0, 8]);
        // Each entry's bytes are its own, and so is its length.
        s.content = vec![i as u8 + 1; 10 + 13 * i];
        p.entries.push(s);
    }
    let bytes = gen::archive(&p)?;
    let z = run(mem::ZipFileReader::new(bytes)).map_err(|e| format!("cannot be opened: {e:?}"))?;
    let threads = r.range(2, 6);
    let rounds = case.tier.pick(1500, 6000);
    let go = AtomicU64::new(0);
    let seeds: Vec<_> = (0..threads).map(|_| r.fork()).collect();
    let out = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds
            .into_iter()
            .map(|mut r| {
                let (z, go, p) = (&z, &go, &p);
                sc.spawn(move || -> Result<u64, String> {
                    go.fetch_add(1, Relaxed);
                    while go.load(Relaxed) < threads as u64 {
                        std::hint::spin_loop();
                    }
                    let mut opened = 0;
                    let mut buf = vec![];
                    for k in 0..rounds {
                        // Runs of one entry, and jumps between two.
                        let i = if k % 7 < 2 { r.below(n) } else { (k / 3) % n };
                        let want = &p.entries[i].content;
                        buf.clear();
                        let h = run(async {
                            if r.chance(1, 2) {
                                let mut rd = z.reader_without_entry(i).await.map_err(|e| format!("opening failed: {e:?}"))?;
                                rd.read_to_end(&mut buf).await.map_err(|e| format!("reading failed: {e:?}"))?;
                                Ok::<_, String>(rd.compute_hash())
                            } else {
                                let mut rd = z.reader_with_entry(i).await.map_err(|e| format!("opening failed: {e:?}"))?;
                                rd.read_to_end_checked(&mut buf).await.map_err(|e| format!("verified read failed: {e:?}"))?;
                                Ok(zipref::crc32(want))
                            }
                        })
                        .map_err(|e| format!("racing reader on entry {i}, round {k}: {e}"))?;
                        ensure!(buf == *want, "racing reader on entry {i}, round {k}: delivered {} bytes starting {:?}, the entry has {} of {}", buf.len(), buf.first(), want.len(), i + 1);
                        ensure!(h == zipref::crc32(want), "racing reader on entry {i}, round {k}: hash is {h:#x}");
                        opened += 1;
                    }
                    Ok(opened)
                })
            })
            .collect();
        hs.into_iter().map(|t| t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect::<Vec<_>>()
    });
    for o in out {
        let k = o.map_err(|e| format!("{e}; {threads} threads: {}", p.describe()))?;
        case.evals(k);
        case.count("racing_opens", k);
    }
    case.distinct(&[&[0xFE], &case.idx.to_le_bytes()[..]].concat());
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    if case.idx % 25 == 3 {
        return race(case);
    }
    let mut r = case.rng.fork();
    let (p, bytes) = archive(&mut r)?;
    let use_fs = r.chance(1, 3);
    let style = r.below(3);
    let file = super::c01::scratch_file("c16");
    let h = if use_fs {
        super::write_scratch(&file, &bytes);
        Handle::Fs(run_tokio(fs::ZipFileReader::new(&file)).map_err(|e| format!("cannot be opened: {e:?}"))?)
    } else {
        Handle::Mem(run(mem::ZipFileReader::new(bytes.clone())).map_err(|e| format!("cannot be opened: {e:?}"))?)
    };
    let listed: Vec<EntryView> = match &h {
        Handle::Mem(z) => z.file().entries().iter().map(|e| EntryView::of(e)).collect(),
        Handle::Fs(z) => z.file().entries().iter().map(|e| EntryView::of(e)).collect(),
    };
    ensure!(listed.len() == p.entries.len(), "{} entries listed, {} written", listed.len(), p.entries.len());
    let truth = Arc::new(Truth { contents: p.entries.iter().map(|s| s.content.clone()).collect(), entries: listed });
    for (i, (e, s)) in truth.entries.iter().zip(&p.entries).enumerate() {
        super::c02::same_meta(e, &s.expect(e.csize), &format!("entry {i}"))?;
    }
    let actors = match case.tier {
        crate::report::Tier::Quick => r.range(2, 12),
        _ => *r.pick(&[2, 3, 5, 8, 12, 24, 64]),
    };
    let n = p.entries.len();
    let favourite = r.below(n);
    let plans: Vec<Vec<(usize, bool, End)>> = (0..actors)
        .map(|_| (0..r.range(1, 4)).map(|_| (if r.chance(1, 3) { favourite } else { r.below(n) }, r.chance(2, 3), *r.pick(&[End::Checked, End::Checked, End::Pieces, End::Abandon]))).collect())
        .collect();
    let what = format!("{} entries, {actors} users, {}, {}: {}", n, if use_fs { "file" } else { "memory" }, ["step by step", "tasks", "threads"][style], p.describe());
    case.say(|| what.clone());
    let shared = Arc::new(Shared { seq: AtomicU64::new(0), active: AtomicU64::new(0), overlap: AtomicU64::new(0) });
    let (results, dropped) = match style {
        0 => {
            let kids = plans
                .iter()
                .enumerate()
                .map(|(id, pl)| {
                    let f: Actor<'_> = Box::pin(actor(&h, pl.clone(), &truth, r.fork(), &shared, false, id));
                    (Some(f), if r.chance(1, 5) { Some(r.below(30) as u32) } else { None })
                })
                .collect();
            let f = interleave(kids, r.fork());
            if use_fs {
                run_tokio(f)
            } else {
                run(f)
            }
        }
        1 => {
            let rt = threads_runtime();
            let mut js = vec![];
            let mut dooms = vec![];
            for (id, pl) in plans.iter().enumerate() {
                let (h, t, s, rr, pl) = (h.clone(), truth.clone(), shared.clone(), r.fork(), pl.clone());
                js.push(rt.spawn(async move { actor(&h, pl, &t, rr, &s, true, id).await }));
                dooms.push(r.chance(1, 6));
            }
            let micros = r.below(400) as u64;
            rt.block_on(async {
                tokio::time::sleep(std::time::Duration::from_micros(micros)).await;
                let mut out = vec![];
                let mut dropped = 0;
                for (j, d) in js.iter().zip(&dooms) {
                    if *d {
                        j.abort();
                    }
                }
                for j in js {
                    match j.await {
                        Ok(v) => out.push(v),
                        Err(e) if e.is_cancelled() => dropped += 1,
                        Err(e) => out.push(Err(format!("a reader panicked: {e}"))),
                    }
                }
                (out, dropped)
            })
        }
        _ => {
            let users: Vec<_> = plans.iter().map(|pl| (pl.clone(), r.fork(), r.chance(1, 2))).collect();
            let out = std::thread::scope(|sc| {
                let hs: Vec<_> = users
                    .into_iter()
                    .enumerate()
                    .map(|(id, (pl, rr, clone))| {
                        let (h, t, s) = (&h, &truth, &shared);
                        sc.spawn(move || {
                            let own = h.clone();
                            let h = if clone { &own } else { h };
                            match h {
                                Handle::Mem(_) => run(actor(h, pl, t, rr, s, false, id)),
                                Handle::Fs(_) => tokio::runtime::Builder::new_current_thread().enable_all().build().expect("tokio runtime").block_on(actor(h, pl, t, rr, s, true, id)),
                            }
                        })
                    })
                    .collect();
                hs.into_iter().map(|t| t.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect::<Vec<_>>()
            });
            (out, 0)
        }
    };
    let overlap = shared.overlap.load(Relaxed);
    case.count(["step_cases", "task_cases", "thread_cases"][style], 1);
    case.count(if use_fs { "fs_cases" } else { "mem_cases" }, 1);
    case.count("futures_dropped", dropped);
    case.max("overlapping_readers", overlap);
    let mut log: Vec<(u64, usize)> = vec![];
    for (id, res) in results.into_iter().enumerate() {
        let ds = res.map_err(|e| format!("{e}; {what}"))?;
        for d in ds {
            case.eval();
            case.count("readers_finished", d.finished as u64);
            case.count("readers_abandoned", d.abandoned as u64);
            case.count("checked_reads", d.checked as u64);
            log.extend(d.events.iter().map(|e| (*e, id)));
        }
    }
    ensure!(shared.active.load(Relaxed) == 0, "harness: readers left over");
    log.sort();
    let order: Vec<u8> = log.iter().map(|x| x.1 as u8).collect();
    case.count("read_events", order.len() as u64);
    case.count("switches_between_readers", order.windows(2).filter(|w| w[0] != w[1]).count() as u64);
    if overlap > 1 {
        case.distinct(&[&bytes[..bytes.len().min(4000)], &order[..]].concat());
    }
    case.sample(|| what);
    // The shared reader is still whole after all of that.
    let (all, _) = {
        let jobs = (0..n).map(|i| (i, true, End::Checked)).collect();
        let f: Actor<'_> = Box::pin(actor(&h, jobs, &truth, r.fork(), &shared, false, 999));
        let f = interleave(vec![(Some(f), None)], r.fork());
        if use_fs {
            run_tokio(f)
        } else {
            run(f)
        }
    };
    for a in all {
        a.map_err(|e| format!("afterwards: {e}"))?;
    }
    if use_fs {
        let _ = std::fs::remove_file(&file);
    }
    Ok(())
}
