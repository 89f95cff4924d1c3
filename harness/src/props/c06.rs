//! Checksum-verified reads: corruption is injected and every success is re-hashed by an independent CRC-32.
use crate::chaos::{Fault, Schedule, Source};
use crate::exec::run;
use crate::gen;
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view;
use crate::zipref::{self, Desc, Layout, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::{mem, seek, stream, WithEntry, ZipEntryReader};
use futures_lite::io::{AsyncBufRead, AsyncReadExt};
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C06",
    level: "exploration",
    rule: "case = synthesised archive (1..3 entries, 7 methods, text or binary), then up to 40 corruptions of stored data, compressed data, recorded CRC or recorded sizes plus the intact archive; each is read by checked reads to bytes and text through the in-memory, seekable and stream readers, after earlier partial reads of random size, into pre-filled buffers, over chunked sources and across a transient source fault; oracle: success implies that the independent CRC-32 of all delivered bytes equals the recorded one, certain corruption implies an error, intact data implies success; non-trivial = corrupted; distinct by bytes read",
    assumptions: &["CRC-32 oracle is the harness' own table implementation"],
    cases: |t| t.pick(9000, 300000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["accepted", "rejected", "rejected_certain", "text_reads", "after_partial", "repeated_checked_reads", "stream_reads", "retried_after_fault", "hash_checked"],
    exhaustive: false,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Expect {
    /// Delivered data cannot match: an error is required.
    Error,
    /// Intact: success is required.
    Success,
    /// Either, judged by the delivered bytes.
    Judge,
}

struct Read {
    text: bool,
    partial: Vec<usize>,
    prefill: usize,
    /// Further checked reads after the first one.
    again: usize,
}

/// Reads an entry; returns what was delivered and whether the checked read claims success.
async fn read<R: AsyncBufRead + Unpin>(rd: &mut ZipEntryReader<'_, R, WithEntry<'_>>, how: &Read, retry: bool) -> Result<(Vec<u8>, Result<usize, String>, usize), String> {
    let mut early = vec![];
    for &n in &how.partial {
        let mut b = vec![0xEEu8; n];
        match rd.read(&mut b).await {
            Ok(k) => {
                ensure!(k <= n, "read returned {k} for a buffer of {n}");
                early.extend_from_slice(&b[..k]);
            }
            Err(e) => return Ok((early, Err(format!("{e:?}")), 0)),
        }
    }
    if how.text {
        let mut s = "p".repeat(how.prefill);
        let r = rd.read_to_string_checked(&mut s).await;
        let r = r.map_err(view::err);
        if r.is_ok() {
            ensure!(s.len() >= how.prefill && s.as_bytes()[..how.prefill].iter().all(|c| *c == b'p'), "the text already in the buffer was altered");
            early.extend_from_slice(&s.as_bytes()[how.prefill..]);
        }
        let n = s.len().saturating_sub(how.prefill);
        repeated(rd, &r, how.again, true).await?;
        Ok((early, r, n))
    } else {
        let mut v = vec![0x70u8; how.prefill];
        let mut r = rd.read_to_end_checked(&mut v).await.map_err(view::err);
        let mut n = v.len() - how.prefill;
        if r.is_err() && retry {
            let before = v.len();
            r = rd.read_to_end_checked(&mut v).await.map_err(view::err);
            n = v.len() - before;
        }
        ensure!(v[..how.prefill].iter().all(|c| *c == 0x70), "the bytes already in the buffer were altered");
        early.extend_from_slice(&v[how.prefill..]);
        repeated(rd, &r, how.again, false).await?;
        Ok((early, r, n))
    }
}

/// The verdict of a checked read that has reached the end stays the same.
async fn repeated<R: AsyncBufRead + Unpin>(rd: &mut ZipEntryReader<'_, R, WithEntry<'_>>, first: &Result<usize, String>, times: usize, text: bool) -> Verdict {
    let certain = match first {
        Ok(_) => true,
        Err(e) => e == "CRC32CheckError",
    };
    for _ in 0..if certain { times } else { 0 } {
        let (mut s, mut v) = (String::new(), vec![]);
        let next = if text { rd.read_to_string_checked(&mut s).await } else { rd.read_to_end_checked(&mut v).await }.map_err(view::err);
        ensure!(s.is_empty() && v.is_empty(), "REPEATED: bytes appear after the end");
        match (first, &next) {
            (Ok(_), Ok(0)) => {}
            (Err(a), Err(b)) if a == b => {}
            _ => bail!("REPEATED: a checked read ended with {first:?}, another one after it with {next:?}"),
        }
    }
    Ok(())
}

fn judge(case: &mut Case, w: &str, expect: Expect, recorded: u32, how: &Read, got: (Vec<u8>, Result<usize, String>, usize)) -> Verdict {
    let (data, r, n) = got;
    case.eval();
    case.count("repeated_checked_reads", how.again as u64);
    if how.text {
        case.count("text_reads", 1);
    }
    if !how.partial.is_empty() {
        case.count("after_partial", 1);
    }
    match r {
        Ok(k) => {
            ensure!(k == n, "{w}: the checked read reports {k} bytes, delivered {n}");
            let h = zipref::crc32(&data);
            ensure!(h == recorded, "{w}: a checked read succeeded, but the {} delivered bytes hash to {h:#010x}, recorded {recorded:#010x}", data.len());
            ensure!(expect != Expect::Error, "{w}: a checked read accepted corrupted data");
            case.count("accepted", 1);
        }
        Err(e) => {
            ensure!(expect != Expect::Success, "{w}: a checked read of intact data failed: {e}");
            case.count("rejected", 1);
            if expect == Expect::Error {
                case.count("rejected_certain", 1);
            }
        }
    }
    Ok(())
}

fn base(r: &mut Rng) -> Synth {
    let n = r.range(1, 3);
    let mut sy = Synth::default();
    for i in 0..n {
        let m = *r.pick(&[0u16, 0, 0, 8, 8, 9, 12, 93, 95, 14]);
        let m = if matches!(m, 14 | 95) && !r.chance(1, 3) { 8 } else { m };
        let big = if r.chance(1, 30) { 70_000 } else { 700 };
        let c = match r.below(3) {
            0 => {
                let k = r.below(big);
                "text äöü ".repeat(k / 9 + 1).into_bytes()
            }
            _ => gen::content(r, big),
        };
        let lv = r.range(1, 9) as u32;
        let mut e = SynthEntry::new(format!("e{i}").as_bytes(), m, c, lv);
        if r.chance(1, 4) {
            e.desc = *r.pick(&[Desc::Sig, Desc::NoSig]);
        }
        sy.entries.push(e);
    }
    sy
}

fn corrupt(r: &mut Rng, sy: &Synth, lay: &Layout, bytes: &mut [u8]) -> (usize, Expect, &'static str) {
    let i = r.below(sy.entries.len());
    let e = &sy.entries[i];
    let (a, b) = (lay.data[i] as usize, lay.data_end[i] as usize);
    let crc_at = lay.central[i] as usize + 16;
    let local_crc_at = lay.local[i] as usize + 14;
    match r.below(7) {
        0 | 1 if b > a => {
            let k = r.range(a, b - 1);
            bytes[k] ^= 1 << r.below(8);
            (i, if e.method == 0 { Expect::Error } else { Expect::Judge }, "one data bit")
        }
        2 if b > a + 1 => {
            // several bytes
            for _ in 0..r.range(2, 6) {
                let k = r.range(a, b - 1);
                bytes[k] = r.u8();
            }
            (i, Expect::Judge, "data bytes")
        }
        3 if b > a + 1 => {
            let k = r.range(a, b - 2);
            bytes.swap(k, k + 1);
            (i, Expect::Judge, "swapped data bytes")
        }
        4 if b > a => {
            // the directory claims less data
            let cut = r.range(1, (b - a).min(20));
            let v = (b - a - cut) as u32;
            let at = lay.central[i] as usize + 20;
            bytes[at..at + 4].copy_from_slice(&v.to_le_bytes());
            // Cutting a compressed stream may leave the content intact (trailing check bytes), so it is judged.
            (i, if e.method == 0 { Expect::Judge } else { Expect::Judge }, "shortened compressed size")
        }
        _ => {
            let k = crc_at + r.below(4);
            let bit = 1 << r.below(8);
            bytes[k] ^= bit;
            bytes[local_crc_at + (k - crc_at)] ^= bit;
            (i, Expect::Error, "one CRC bit")
        }
    }
}

fn how(r: &mut Rng, content: &[u8]) -> Read {
    let text = r.chance(1, 4) && std::str::from_utf8(content).is_ok();
    let partial: Vec<usize> = match r.below(3) {
        // text after a partial read could be split within a character
        0 if !text || content.is_ascii() => (0..r.range(1, 4)).map(|_| if r.chance(1, 8) { 0 } else { view::buf_size(r) }).collect(),
        _ => vec![],
    };
    // futures-lite only reads text into an empty buffer.
    Read { text, partial, prefill: if text { 0 } else { *r.pick(&[0usize, 0, 3, 40]) }, again: *r.pick(&[0usize, 0, 1, 2]) }
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let sy = base(&mut r);
    let (good, lay) = sy.build();
    let rounds = r.range(6, 40);
    for k in 0..rounds {
        let mut bytes = good.clone();
        let (hit, expect, what) = if k == 0 { (usize::MAX, Expect::Success, "intact") } else { corrupt(&mut r, &sy, &lay, &mut bytes) };
        if bytes == good && k > 0 {
            continue;
        }
        if k > 0 {
            case.distinct(&bytes);
        }
        let data = Arc::new(bytes);
        for (i, e) in sy.entries.iter().enumerate() {
            let expect = if i == hit { expect } else { Expect::Success };
            let h = how(&mut r, &e.content);
            let w = format!("entry {i} m{} {}B, {what}, text {} partial {:?}", e.method, e.content.len(), h.text, h.partial);
            case.say(|| w.clone());
            match r.below(3) {
                0 => {
                    let z = run(mem::ZipFileReader::new((*data).clone())).map_err(|e| format!("{w}: cannot open: {e:?}"))?;
                    let got = run(async {
                        match z.reader_with_entry(i).await {
                            Ok(mut rd) => Ok((rd.entry().crc32(), read(&mut rd, &h, false).await?)),
                            Err(e) => Err(format!("{w}: cannot open the entry: {e:?}")),
                        }
                    })?;
                    judge(case, &format!("mem: {w}"), expect, got.0, &h, got.1)?;
                }
                1 => {
                    let (src, probe) = Source::new(data.clone(), Schedule::random(&mut r), r.fork());
                    let mut z = run(seek::ZipFileReader::new(src)).map_err(|e| format!("{w}: cannot open: {e:?}"))?;
                    let retry = !h.text && r.chance(1, 3);
                    let later = r.below(12) as u64;
                    let got = run(async {
                        match z.reader_with_entry(i).await {
                            Ok(mut rd) => {
                                if retry {
                                    let at = probe.counters().ops + later;
                                    probe.set_fault(Some(Fault { at, times: 1, kind: std::io::ErrorKind::Other, zero: false }));
                                }
                                Ok((rd.entry().crc32(), read(&mut rd, &h, retry).await?))
                            }
                            Err(e) => Err(format!("{w}: cannot open the entry: {e:?}")),
                        }
                    })?;
                    let faulted = probe.counters().faults > 0;
                    if faulted {
                        case.count("retried_after_fault", 1);
                    }
                    judge(case, &format!("seek: {w}, fault {faulted}"), if faulted && expect == Expect::Success { Expect::Judge } else { expect }, got.0, &h, got.1)?;
                }
                _ => {
                    if sy.entries[..=i].iter().any(|e| e.desc != Desc::None && e.method == 0) {
                        continue;
                    }
                    // Forward to entry i; a corrupted entry before it is not crossed.
                    if hit < i {
                        continue;
                    }
                    let (src, _) = Source::new(data.clone(), Schedule::random(&mut r), r.fork());
                    let got = run(async {
                        let mut z = stream::ZipFileReader::new(src);
                        for _ in 0..i {
                            z = z.next_without_entry().await.map_err(view::err)?.ok_or("clean end too early")?.skip().await.map_err(view::err)?;
                        }
                        let mut rd = z.next_with_entry().await.map_err(view::err)?.ok_or("clean end too early")?;
                        let rec = rd.reader().entry().crc32();
                        Ok::<_, String>((rec, read(rd.reader_mut(), &h, false).await?))
                    })
                    .map_err(|e: String| format!("stream: {w}: {e}"))?;
                    // With a descriptor, or where only the directory was altered, the local header decides.
                    let ex = if e.desc != Desc::None || (i == hit && what == "shortened compressed size") { Expect::Judge } else { expect };
                    case.count("stream_reads", 1);
                    judge(case, &format!("stream: {w}"), ex, got.0, &h, got.1)?;
                }
            }
        }
        // The reported hash, however the reads were split.
        let i = r.below(sy.entries.len());
        let (src, _) = Source::new(data.clone(), Schedule::random(&mut r), r.fork());
        let mut rr = r.fork();
        let got = run(async {
            let mut z = seek::ZipFileReader::new(src).await.map_err(view::err)?;
            let mut rd = z.reader_without_entry(i).await.map_err(view::err)?;
            view::pieces(&mut rd, &mut rr).await
        });
        match got {
            Ok(_) => case.count("hash_checked", 1),
            Err(e) if e.starts_with("HASH") || e.starts_with("HARNESS") => bail!("entry {i}, {what}: {e}"),
            Err(_) => {}
        }
    }
    let d = format!("{} entries, {} bytes, {rounds} corruptions", sy.entries.len(), good.len());
    case.sample(|| d);
    Ok(())
}
