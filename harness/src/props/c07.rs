//! Hostile input: no panic, overflow, abort or hang, and a bounded number of source operations.
use crate::chaos::{Schedule, Source, SourceProbe};
use crate::exec::{run, run_tokio};
use crate::mutate;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{EntryView, FileView};
use async_zip::base::read::{mem, seek, stream, ZipEntryReader};
use async_zip::error::ZipError;
use async_zip::ZipFile;
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C07",
    level: "exploration",
    rule: "case = a base archive (synthesised, produced, signature soup or noise) and 24 structure-aware corruptions of it (fields set to boundary values and other structures' offsets, bit flips, insertions, deletions, splices, truncation), each opened, listed with every accessor and read through the in-memory, seekable, stream or file-system reader in a build with overflow checks and debug assertions; monitors: panic, abort (supervised process), CPU-time limit, per-call budget of source operations (open 400+2L, entry open 400, entry read 100+2L per call); non-trivial = mutated input; distinct by bytes",
    assumptions: &["per entry at most 4 MiB of decoded data are read, at most 40 entries per archive", "undefined behaviour is watched for by AddressSanitizer in a part of the cases"],
    cases: |t| t.pick(60000, 3000000),
    budget: |t| t.pick(70, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["mem_opened", "mem_refused", "seek_opened", "seek_refused", "stream_steps", "stream_errors", "entries_read", "entry_errors"],
    exhaustive: false,
};

const CAP: u64 = 4 << 20;
const MAX_ENTRIES: usize = 40;

/// Uses every accessor of a listing.
pub fn touch(f: &ZipFile) {
    let _ = FileView::of(f);
    for e in f.entries().iter().take(200) {
        let _ = (e.filename().as_str().is_ok(), e.comment().as_str().is_ok(), e.dir().is_ok());
        let _ = e.last_modification_date().as_chrono();
        let _ = e.filename().clone().into_string();
        let _ = EntryView::of(e);
        let _ = format!("{:?}", &**e).len();
    }
    let _ = f.comment().as_str();
}

async fn drain<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, r: &mut Rng, probe: Option<&SourceProbe>, len: u64) -> Result<u64, std::io::Error> {
    let mut buf = vec![0u8; *r.pick(&[1usize, 64, 4096, 65536])];
    let mut total = 0u64;
    let mut calls = 0;
    loop {
        if let Some(p) = probe {
            let c = p.counters().ops;
            p.set_budget(c + 100 + 2 * len);
        }
        let n = rd.read(&mut buf).await?;
        calls += 1;
        if n == 0 {
            break;
        }
        total += n as u64;
        if total > CAP {
            break;
        }
        if calls > 300 && buf.len() < 4096 {
            buf = vec![0; 65536];
        }
    }
    let _ = rd.compute_hash();
    Ok(total)
}

fn note(case: &mut Case, r: Result<u64, String>) {
    match r {
        Ok(n) => {
            case.count("entries_read", 1);
            case.max("decoded_bytes_of_an_entry", n);
        }
        Err(_) => case.count("entry_errors", 1),
    }
}

pub fn offer_mem(case: &mut Case, b: &[u8], r: &mut Rng) {
    let z = match run(mem::ZipFileReader::new(b.to_vec())) {
        Ok(z) => z,
        Err(e) => {
            let _ = format!("{e} {e:?}");
            case.count("mem_refused", 1);
            return;
        }
    };
    case.count("mem_opened", 1);
    touch(z.file());
    let n = z.file().entries().len();
    case.max("entries_listed", n as u64);
    for i in 0..n.min(MAX_ENTRIES) {
        let with = r.chance(1, 2);
        let checked = r.chance(1, 4);
        let x = run(async {
            if with {
                let mut rd = z.reader_with_entry(i).await.map_err(|e| format!("{e:?}"))?;
                let small = rd.entry().compressed_size() < 2000;
                if checked && small {
                    let mut v = vec![];
                    rd.read_to_end_checked(&mut v).await.map(|n| n as u64).map_err(|e| format!("{e:?}"))
                } else {
                    drain(&mut rd, r, None, 0).await.map_err(|e| format!("{e:?}"))
                }
            } else {
                let mut rd = z.reader_without_entry(i).await.map_err(|e| format!("{e:?}"))?;
                drain(&mut rd, r, None, 0).await.map_err(|e| format!("{e:?}"))
            }
        });
        note(case, x);
    }
    let _ = run(z.reader_without_entry(n)).is_err();
    let _ = run(z.reader_with_entry(usize::MAX)).is_err();
}

pub fn offer_seek(case: &mut Case, data: &Arc<Vec<u8>>, r: &mut Rng) {
    let len = data.len() as u64;
    let (src, probe) = Source::new(data.clone(), Schedule::smooth(), r.fork());
    probe.set_budget(400 + 2 * len);
    let mut z = match run(seek::ZipFileReader::new(src)) {
        Ok(z) => z,
        Err(_) => {
            case.count("seek_refused", 1);
            return;
        }
    };
    case.count("seek_opened", 1);
    case.max("open_ops", probe.counters().ops);
    touch(z.file());
    let n = z.file().entries().len();
    for i in 0..n.min(MAX_ENTRIES) {
        let c = probe.counters().ops;
        probe.set_budget(c + 400);
        let with = r.chance(1, 2);
        let x = run(async {
            if with {
                let mut rd = z.reader_with_entry(i).await.map_err(|e| format!("{e:?}"))?;
                drain(&mut rd, r, Some(&probe), len).await.map_err(|e| format!("{e:?}"))
            } else {
                let mut rd = z.reader_without_entry(i).await.map_err(|e| format!("{e:?}"))?;
                drain(&mut rd, r, Some(&probe), len).await.map_err(|e| format!("{e:?}"))
            }
        });
        note(case, x);
    }
    let i = if r.chance(1, 8) { n } else { r.below(n.max(1)) };
    probe.set_budget(probe.counters().ops + 400);
    let x = run(async {
        let mut rd = z.into_entry(i).await.map_err(|e| format!("{e:?}"))?;
        drain(&mut rd, r, Some(&probe), len).await.map_err(|e| format!("{e:?}"))
    });
    note(case, x);
}

pub fn offer_stream(case: &mut Case, data: &Arc<Vec<u8>>, r: &mut Rng) {
    let len = data.len() as u64;
    let (src, probe) = Source::new(data.clone(), Schedule::smooth(), r.fork());
    let mut z = stream::ZipFileReader::new(src);
    let mut steps = 0u64;
    let e: Result<(), ZipError> = loop {
        let c = probe.counters().ops;
        probe.set_budget(c + 400);
        let with = r.chance(1, 2);
        let act = r.below(3);
        let res = run(async {
            macro_rules! go {
                ($next:ident) => {{
                    match z.$next().await? {
                        None => return Ok(None),
                        Some(mut rd) => {
                            if act != 0 {
                                drain(rd.reader_mut(), r, Some(&probe), len).await?;
                            }
                            // A skip decodes the rest: as many operations as the data need, never more than a few per byte.
                            let c = probe.counters().ops;
                            probe.set_budget(c + 400 + 2 * len + (200 << 20) / 2048);
                            let z = if act == 2 { rd.done().await? } else { rd.skip().await? };
                            Ok::<_, ZipError>(Some(z))
                        }
                    }
                }};
            }
            if with {
                go!(next_with_entry)
            } else {
                go!(next_without_entry)
            }
        });
        match res {
            Ok(Some(x)) => z = x,
            Ok(None) => break Ok(()),
            Err(e) => break Err(e),
        }
        steps += 1;
    };
    case.count("stream_steps", steps);
    case.max("stream_steps_of_an_input", steps);
    if e.is_err() {
        case.count("stream_errors", 1);
    } else {
        case.count("stream_clean_ends", 1);
    }
    if steps > 2 + len / 30 {
        std::panic::panic_any(crate::report::Violated(format!("the stream reader made {steps} steps over {len} bytes")));
    }
}

fn offer_fs(case: &mut Case, b: &[u8], r: &mut Rng) {
    let f = super::c01::scratch_file("c07");
    super::write_scratch(&f, b);
    run_tokio(async {
        match async_zip::tokio::read::fs::ZipFileReader::new(&f).await {
            Err(_) => case.count("fs_refused", 1),
            Ok(z) => {
                case.count("fs_opened", 1);
                touch(z.file());
                for i in 0..z.file().entries().len().min(10) {
                    let x = async {
                        let mut rd = z.reader_without_entry(i).await.map_err(|e| format!("{e:?}"))?;
                        drain(&mut rd, r, None, 0).await.map_err(|e| format!("{e:?}"))
                    }
                    .await;
                    note(case, x);
                }
            }
        }
    });
    let _ = std::fs::remove_file(&f);
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let (b0, lay) = mutate::base(&mut r);
    for k in 0..24 {
        let mut b = b0.clone();
        if k > 0 {
            mutate::mutate(&mut r, &mut b, lay.as_ref());
        }
        case.eval();
        case.distinct(&b);
        case.count("input_bytes", b.len() as u64);
        let data = Arc::new(b);
        match r.below(3) {
            0 => offer_mem(case, &data, &mut r),
            1 => offer_seek(case, &data, &mut r),
            _ => offer_stream(case, &data, &mut r),
        }
        if k == 1 && case.idx % 16 == 0 && !cfg!(miri) {
            offer_fs(case, &data, &mut r);
        }
    }
    let n = b0.len();
    case.sample(|| format!("base of {n} bytes ({}), 23 mutants", if lay.is_some() { "synthesised" } else { "produced or noise" }));
    Ok(())
}
