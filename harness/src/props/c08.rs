//! Memory use, measured by the tracking allocator around every call.
use crate::alloc::{measure, Usage};
use crate::chaos::{Schedule, Sink, Source, Store};
use crate::exec::{run, run_tokio};
use crate::gen::{self, Call};
use crate::mutate;
use crate::report::{Case, Prop, Tier, Verdict};
use crate::rng::Rng;
use crate::zipref::{self, Desc, Extra, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::tokio::read::fs;
use async_zip::ZipEntryBuilder;
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C08",
    level: "exploration",
    rule: "case = (a) an archive whose headers lie about counts, lengths and sizes, or a mutated archive, opened and listed by the in-memory and seekable readers and stepped through by the stream reader, or opened by path and read a little of, with the peak of live heap bytes of each call held against 192 KiB + 64 x bytes present, and entries read to the end against 8 MiB (bzip2 blocks) + 8 x delivered; (b) an entry of each method read in pieces, skipped, or written through the streaming call at two lengths, whose peaks must not differ by more than 192 KiB; non-trivial = every case; distinct by input bytes",
    assumptions: &["memory allocated inside the C codecs (bzip2, zstd, liblzma) is not visible to the Rust allocator"],
    cases: |t| t.pick(30000, 1500000),
    budget: |t| t.pick(70, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["opens_measured", "refusals_measured", "steps_measured", "full_reads_measured", "file_reads_measured", "incremental_reads_compared", "skips_compared", "streamed_writes_compared"],
    exhaustive: false,
};

const K: u64 = 192 << 10;
const PER_BYTE: u64 = 64;

fn within(case: &mut Case, what: &str, u: Usage, len: u64) -> Verdict {
    case.eval();
    case.max("peak_bytes", u.peak);
    case.max("peak_per_16_input_bytes_beyond_constant", (u.peak.saturating_sub(K) * 16) / len.max(1));
    ensure!(u.peak <= K + PER_BYTE * len, "{what} allocated {} bytes at its peak (largest request {}) for {len} bytes of input", u.peak, u.largest);
    Ok(())
}

/// Lies about everything that has a declared length.
fn liar(r: &mut Rng) -> Vec<u8> {
    let mut e = SynthEntry::new(b"entry", *r.pick(&[0u16, 8, 9, 12, 93, 95, 14]), vec![7; 40], 1);
    e.z64_central = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
    e.z64_local = r.chance(1, 2);
    if r.chance(1, 3) {
        // many tiny extra fields
        let k = r.range(1, 400);
        e.extra_central = (0..k).map(|i| Extra { id: 0x4000 + i as u16, data: vec![] }).collect();
    }
    let mut s = Synth { entries: vec![e.clone(); r.range(1, 3)], z64_end: r.chance(2, 3), z64_mask: (true, true, true), ..Default::default() };
    if r.chance(1, 30) {
        s.entries = vec![SynthEntry::new(b"", 0, vec![], 1); r.range(500, 3000)];
    }
    let (mut b, l) = s.build();
    let huge = |r: &mut Rng| -> u64 { *r.pick(&[0xFFFFu64, 0x10000, 0xFFFF_FFFF, 0xFFFF_FFFE, 1 << 32, 1 << 40, 1 << 62, u64::MAX, 50_000_000]) };
    let put = |b: &mut Vec<u8>, at: u64, v: u64, n: usize| {
        for k in 0..n {
            if let Some(d) = b.get_mut(at as usize + k) {
                *d = v.to_le_bytes()[k];
            }
        }
    };
    for _ in 0..r.range(1, 4) {
        let i = r.below(s.entries.len());
        let v = huge(r);
        match r.below(12) {
            0 => {
                put(&mut b, l.z64rec + 24, v, 8);
                put(&mut b, l.z64rec + 32, v, 8);
            }
            1 => {
                put(&mut b, l.eocd + 8, v, 2);
                put(&mut b, l.eocd + 10, v, 2);
            }
            2 => put(&mut b, l.eocd + 20, v, 2),
            3 => put(&mut b, l.eocd + 12, v, 4),
            4 => put(&mut b, l.central[i] + 28, v, 2),
            5 => put(&mut b, l.central[i] + 30, v, 2),
            6 => put(&mut b, l.central[i] + 32, v, 2),
            7 => put(&mut b, l.local[i] + 26, v, 2),
            8 => put(&mut b, l.local[i] + 28, v, 2),
            9 => {
                put(&mut b, l.central[i] + 20, v, 4);
                put(&mut b, l.local[i] + 18, v, 4);
            }
            10 => {
                put(&mut b, l.central[i] + 24, v, 4);
                put(&mut b, l.local[i] + 22, v, 4);
            }
            // values of the ZIP64 field
            _ => put(&mut b, l.central[i] + 46 + e.name.len() as u64 + 4 + 8 * r.below(3) as u64, v, 8),
        }
    }
    b
}

fn hostile(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    for k in 0..6 {
        let b = if k % 2 == 0 {
            liar(&mut r)
        } else {
            let (mut b, l) = mutate::base(&mut r);
            mutate::mutate(&mut r, &mut b, l.as_ref());
            b
        };
        case.distinct(&b);
        let len = b.len() as u64;
        let data = Arc::new(b);
        // In memory: the caller's own copy is not counted.
        let copy = (*data).clone();
        let (z, u) = measure(|| run(mem::ZipFileReader::new(copy)));
        within(case, "opening (mem)", u, len)?;
        case.count(if z.is_ok() { "opens_measured" } else { "refusals_measured" }, 1);
        if let Ok(z) = &z {
            let (_, u) = measure(|| super::c07::touch(z.file()));
            // The harness' own view of a listing is several copies of it.
            within(case, "listing", u, 4 * len)?;
            for i in 0..z.file().entries().len().min(3) {
                let mut v = vec![];
                let (res, u) = measure(|| {
                    run(async {
                        let mut rd = z.reader_with_entry(i).await.map_err(|e| format!("{e:?}"))?;
                        rd.read_to_end_checked(&mut v).await.map_err(|e| format!("{e:?}"))
                    })
                });
                let _ = res;
                case.eval();
                case.max("full_read_peak", u.peak);
                case.count("full_reads_measured", 1);
                ensure!(u.peak <= (8 << 20) + 8 * v.len() as u64, "reading entry {i} to the end allocated {} bytes (largest request {}) to deliver {} bytes", u.peak, u.largest, v.len());
            }
        }
        let (src, _) = Source::new(data.clone(), Schedule::smooth(), r.fork());
        let (z, u) = measure(|| run(seek::ZipFileReader::new(src)));
        within(case, "opening (seek)", u, len)?;
        case.count(if z.is_ok() { "opens_measured" } else { "refusals_measured" }, 1);
        // By path: reading a little of each entry must not depend on what its sizes claim.
        if k < 2 {
            let file = super::c01::scratch_file("c08");
            super::write_scratch(&file, &data);
            let (z, u) = measure(|| run_tokio(fs::ZipFileReader::new(&file)));
            within(case, "opening (file)", u, len)?;
            if let Ok(z) = &z {
                for i in 0..z.file().entries().len().min(3) {
                    let (_, u) = measure(|| {
                        run_tokio(async {
                            let mut b = [0u8; 16];
                            if i % 2 == 0 {
                                let mut rd = z.reader_with_entry(i).await.map_err(|e| format!("{e:?}"))?;
                                rd.read(&mut b).await.map_err(|e| format!("{e:?}"))
                            } else {
                                let mut rd = z.reader_without_entry(i).await.map_err(|e| format!("{e:?}"))?;
                                rd.read(&mut b).await.map_err(|e| format!("{e:?}"))
                            }
                        })
                    });
                    case.eval();
                    case.count("file_reads_measured", 1);
                    case.max("file_read_peak", u.peak);
                    // A bzip2 decoder's tables are allocated at the first byte.
                    ensure!(u.peak <= 8 << 20, "opening entry {i} by path and reading 16 bytes allocated {} bytes (largest request {})", u.peak, u.largest);
                }
            }
            let _ = std::fs::remove_file(&file);
        }
        // Forward: each step on its own.
        let (src, _) = Source::new(data.clone(), Schedule::smooth(), r.fork());
        let mut z = stream::ZipFileReader::new(src);
        for _ in 0..6 {
            let (x, u) = measure(|| run(z.next_with_entry()));
            within(case, "stepping to the next entry", u, len)?;
            case.count("steps_measured", 1);
            match x {
                Ok(Some(rd)) => match run(rd.skip()) {
                    Ok(n) => z = n,
                    Err(_) => break,
                },
                _ => break,
            }
        }
    }
    case.sample(|| "lying and mutated headers".into());
    Ok(())
}

/// A sink that keeps nothing.
struct Null(u64);
impl Store for Null {
    fn append(&mut self, b: &[u8]) {
        self.0 += b.len() as u64;
    }
    fn size(&self) -> u64 {
        self.0
    }
}

fn lengths(case: &Case) -> (usize, usize) {
    match case.tier {
        Tier::Quick => (600_000, 4_800_000),
        Tier::Thorough => (600_000, 40_000_000),
    }
}

fn material(r: &mut Rng, n: usize, kind: usize) -> Vec<u8> {
    match kind {
        0 => vec![0x61; n],
        1 => {
            let p = r.bytes(3000);
            (0..n).map(|i| p[i % 3000] ^ (i / 300_000) as u8).collect()
        }
        _ => r.bytes(n),
    }
}

const SLACK: u64 = 192 << 10;

fn incremental_read(case: &mut Case, m: u16, kind: usize) -> Verdict {
    let mut r = case.rng.fork();
    let (a, b) = lengths(case);
    let mut peaks = vec![];
    for n in [a, b] {
        let mut e = SynthEntry::new(b"big", m, material(&mut r, n, kind), 1);
        let dd = m != 0 && r.chance(1, 2);
        if dd {
            e.desc = Desc::Sig;
        }
        let want = zipref::crc32(&e.content);
        let (bytes, _) = Synth { entries: vec![e], ..Default::default() }.build();
        let data = Arc::new(bytes);
        // Random access.
        let (src, _) = Source::new(data.clone(), Schedule::smooth(), r.fork());
        let mut z = run(seek::ZipFileReader::new(src)).map_err(|e| format!("{e:?}"))?;
        let which = (kind + m as usize) % 3;
        let (h, u1) = measure(|| {
            run(async {
                let mut buf = vec![0u8; 4096];
                let mut total = 0usize;
                macro_rules! all {
                    ($rd:expr) => {{
                        let mut rd = $rd.map_err(|e| format!("{e:?}"))?;
                        loop {
                            let k = rd.read(&mut buf).await.map_err(|e| format!("{e:?}"))?;
                            if k == 0 {
                                break rd.compute_hash();
                            }
                            total += k;
                        }
                    }};
                }
                let h = match which {
                    0 => all!(z.reader_with_entry(0).await),
                    1 => all!(z.reader_without_entry(0).await),
                    _ => all!(z.into_entry(0).await),
                };
                Ok::<_, String>((h, total))
            })
        });
        let (h, total) = h?;
        ensure!(h == want && total == n, "incremental reading delivered {total} of {n} bytes, hash {h:#x}, expected {want:#x}");
        // By path.
        let file = super::c01::scratch_file("c08");
        super::write_scratch(&file, &data);
        let (x, u3) = measure(|| {
            run_tokio(async {
                let z = fs::ZipFileReader::new(&file).await.map_err(|e| format!("{e:?}"))?;
                let mut buf = vec![0u8; 4096];
                let mut total = 0usize;
                macro_rules! all {
                    ($rd:expr) => {{
                        let mut rd = $rd.map_err(|e| format!("{e:?}"))?;
                        loop {
                            let k = rd.read(&mut buf).await.map_err(|e| format!("{e:?}"))?;
                            if k == 0 {
                                break rd.compute_hash();
                            }
                            total += k;
                        }
                    }};
                }
                let h = if kind % 2 == 0 { all!(z.reader_with_entry(0).await) } else { all!(z.reader_without_entry(0).await) };
                Ok::<_, String>((h, total))
            })
        });
        let _ = std::fs::remove_file(&file);
        let (h, total) = x?;
        ensure!(h == want && total == n, "reading by path delivered {total} of {n} bytes, hash {h:#x}, expected {want:#x}");
        // Forward, skipping.
        let mut u2 = u1;
        if !(dd && m == 0) {
            let (src, _) = Source::new(data.clone(), Schedule::smooth(), r.fork());
            let (x, u) = measure(|| {
                run(async {
                    let z = stream::ZipFileReader::new(src);
                    let rd = z.next_without_entry().await.map_err(|e| format!("{e:?}"))?.ok_or("no entry")?;
                    let z = rd.skip().await.map_err(|e| format!("{e:?}"))?;
                    z.next_without_entry().await.map(|x| x.is_none()).map_err(|e| format!("{e:?}"))
                })
            });
            ensure!(x.clone()?, "no clean end after the entry");
            u2 = u;
        }
        peaks.push((u1.peak, u2.peak, u3.peak));
    }
    case.eval();
    case.distinct(&[1, m as u8, kind as u8]);
    case.count("incremental_reads_compared", 1);
    case.count("skips_compared", 1);
    case.max("incremental_read_peak", peaks[1].0);
    case.max("skip_peak", peaks[1].1);
    ensure!(peaks[1].0 <= peaks[0].0 + SLACK, "method {m}: reading {b} bytes in pieces takes {} bytes of memory, {a} bytes take {}", peaks[1].0, peaks[0].0);
    case.max("file_incremental_peak", peaks[1].2);
    ensure!(peaks[1].2 <= peaks[0].2 + SLACK, "method {m}: reading {b} bytes by path in pieces takes {} bytes of memory, {a} bytes take {}", peaks[1].2, peaks[0].2);
    ensure!(peaks[1].1 <= peaks[0].1 + SLACK, "method {m}: skipping {b} bytes takes {} bytes of memory, {a} bytes take {}", peaks[1].1, peaks[0].1);
    Ok(())
}

fn streamed_write(case: &mut Case, m: u16, kind: usize, call: Call) -> Verdict {
    let mut r = case.rng.fork();
    let (a, b) = lengths(case);
    let mut peaks = vec![];
    for n in [a, b] {
        let data = material(&mut r, n, kind);
        let flush = r.chance(1, 4);
        let (sink, probe) = Sink::with_store(Null(0), Schedule::smooth(), r.fork());
        let (x, u) = measure(|| {
            run(async {
                let mut w = ZipFileWriter::new(sink);
                let e = ZipEntryBuilder::new("big".to_string().into(), gen::method(m));
                macro_rules! feed {
                    ($e:expr) => {{
                        let mut e = $e?;
                        for (k, c) in data.chunks(5000).enumerate() {
                            e.write_all(c).await?;
                            if flush && k % 100 == 99 {
                                e.flush().await?;
                            }
                        }
                        e.close().await?;
                    }};
                }
                if call == Call::Stream {
                    feed!(w.write_entry_stream(e).await)
                } else {
                    feed!(w.write_entry_stream_precompressed(e.crc32(1u32).uncompressed_size(2u64)).await)
                }
                w.close().await?;
                Ok::<_, async_zip::error::ZipError>(())
            })
        });
        if let Err(e) = x {
            bail!("writing {n} bytes failed: {e:?}");
        }
        ensure!(probe.size() > 22, "nothing was written");
        peaks.push(u.peak);
    }
    case.eval();
    case.distinct(&[2, m as u8, kind as u8, call as u8]);
    case.count("streamed_writes_compared", 1);
    case.max("streamed_write_peak", peaks[1]);
    ensure!(peaks[1] <= peaks[0] + SLACK, "method {m} {call:?}: writing {b} bytes takes {} bytes of memory, {a} bytes take {}", peaks[1], peaks[0]);
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    let reads: Vec<(u16, usize)> = [0u16, 8, 9, 12, 93, 95, 14].iter().flat_map(|m| (0..3).map(move |k| (*m, k))).collect();
    let writes: Vec<(u16, usize, Call)> = [0u16, 8, 12, 93, 95, 14]
        .iter()
        .flat_map(|m| (0..3).map(move |k| (*m, k, Call::Stream)))
        .chain([(0, 2, Call::StreamPre), (8, 2, Call::StreamPre)])
        // Random data are slow for the LZMA family.
        .filter(|(m, k, _)| !(matches!(m, 14 | 95) && *k == 2))
        .collect();
    let i = case.idx as usize;
    let n = (reads.len() + writes.len()) * case.tier.pick(1, 3);
    // The long ones first, spread over the threads.
    if i < n {
        let i = i % (reads.len() + writes.len());
        if i < writes.len() {
            let (m, k, c) = writes[i];
            streamed_write(case, m, k, c)
        } else {
            let (m, k) = reads[i - writes.len()];
            incremental_read(case, m, k)
        }
    } else {
        hostile(case)
    }
}
