//! The forward-only reader against the random-access reader.
use crate::chaos::{Schedule, Source};
use crate::exec::run;
use crate::gen::{self, Call, Limits, Mode};
use crate::report::{Case, Prop, Verdict};
use crate::rng::Rng;
use crate::view::{self, Action, ArchiveView, How, StreamView};
use crate::zipref::{self, Desc, Synth, SynthEntry};
use crate::{bail, ensure};
use async_zip::base::read::stream;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C03",
    level: "exploration",
    rule: "case = archive written by the crate (no streamed stored entries) or synthesised (descriptors with/without signature, 4- or 8-byte sizes, or the masks earlier versions of the crate wrote, ZIP64 local fields, central order shuffled), stepped through by the real stream reader (futures or tokio flavour) under several random mixes of read/partial/skip/finish with varying buffer sizes and compared with the in-memory reader; plus attempts to finish entries early; non-trivial = at least one entry or the empty archive; distinct by archive bytes",
    assumptions: &["an unsigned descriptor whose CRC equals the descriptor signature and whose sizes are equal is ambiguous and not generated"],
    cases: |t| t.pick(70000, 2000000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["stream_entries", "stream_clean_ends", "empty_archives", "early_finish_refused", "descriptors_crossed", "zip64_descriptors", "masked_descriptors", "checksums_like_signatures", "partial_skips", "full_skips"],
    exhaustive: false,
};

/// An archive readable forward: bytes and the physical order of the listing.
pub fn forward_archive(r: &mut Rng, l: &Limits) -> Result<(Vec<u8>, Vec<usize>, u64, u64, [u64; 2]), String> {
    if r.chance(1, 2) {
        let mut p = gen::program(r, l);
        for s in &mut p.entries {
            if s.method == 0 && s.call.streamed() {
                s.call = if s.call == Call::Stream { Call::Whole } else { Call::WholePre };
            }
        }
        let dd = p.entries.iter().filter(|s| s.call.streamed()).count() as u64;
        let d64 = if p.mode == Mode::Forbid { 0 } else { dd };
        let n = p.entries.len();
        Ok((gen::archive(&p)?, (0..n).collect(), dd, d64, [0, 0]))
    } else {
        let n = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
        let mut sy = Synth::default();
        let (mut dd, mut d64, mut like_signature, mut masked) = (0, 0, 0, 0);
        for i in 0..n {
            let m = *r.pick(&[0u16, 0, 8, 8, 8, 9, 12, 93, 93, 95, 14]);
            let m = if matches!(m, 14 | 95) && !r.chance(1, 3) { 8 } else { m };
            let mut c = gen::content(r, l.content);
            // A checksum that looks like a descriptor's signature.
            if c.len() >= 8 && r.chance(1, 12) {
                let k = c.len() - 4;
                let f = zipref::forge(&c[..k], zipref::DESC);
                c[k..].copy_from_slice(&f);
            }
            let lv = r.range(1, 9) as u32;
            let mut e = SynthEntry::new(format!("dir/entry {i} é").as_bytes(), m, c, lv);
            e.flags = 0x800;
            e.date = r.u16();
            e.time = r.u16();
            e.extra_local = super::c02::foreign_extras(r);
            e.extra_central = super::c02::foreign_extras(r);
            if m != 0 && r.chance(2, 3) {
                e.desc = *r.pick(&[Desc::Sig, Desc::Sig, Desc::NoSig, Desc::Sig64, Desc::NoSig64, Desc::Masked]);
                // Ambiguous in fact: the checksum looks like a signature and the sizes are equal.
                if e.crc == zipref::DESC && e.desc == Desc::NoSig && e.content.len() == e.cdata.len() {
                    e.desc = Desc::Sig;
                }
                like_signature += (e.crc == zipref::DESC) as u64;
                e.z64_local = matches!(e.desc, Desc::Sig64 | Desc::NoSig64 | Desc::Masked);
                masked += (e.desc == Desc::Masked) as u64;
                e.local_values = r.chance(1, 4);
                dd += 1;
                d64 += e.z64_local as u64;
            } else {
                e.z64_local = r.chance(1, 4);
                if m == 93 && r.chance(1, 2) {
                    e.cdata = zipref::zstd_frames(&e.content, r);
                    e.framed = true;
                }
                // Data the decoder does not need, within the size declared.
                if matches!(m, 8 | 9) && r.chance(1, 6) {
                    let k = *r.pick(&[1usize, 2, 40, 3000, 70_000]);
                    let junk = r.bytes(k);
                    e.cdata.extend(junk);
                }
            }
            e.z64_central = (r.chance(1, 4), r.chance(1, 4), r.chance(1, 4));
            sy.entries.push(e);
        }
        let mut order: Vec<usize> = (0..n).collect();
        if r.chance(1, 2) {
            for i in (1..n).rev() {
                order.swap(i, r.below(i + 1));
            }
        }
        // listing position of the k-th physical entry
        let phys: Vec<usize> = (0..n).map(|k| order.iter().position(|&x| x == k).unwrap()).collect();
        sy.order = order;
        sy.z64_end = r.chance(1, 3);
        sy.comment = gen::string(r, 40, false).raw;
        Ok((sy.build().0, phys, dd, d64, [like_signature, masked]))
    }
}

/// Compares a full walk with the random-access view.
pub fn agree(v: &StreamView, a: &ArchiveView, phys: &[usize], acts: &[(bool, Action)]) -> Verdict {
    if let Err(e) = &v.end {
        bail!("stream reader fails after {} of {} entries: {e}", v.steps.len(), phys.len());
    }
    ensure!(v.steps.len() == phys.len(), "stream reader yields {} entries, the listing has {}", v.steps.len(), phys.len());
    for (k, st) in v.steps.iter().enumerate() {
        let (want, data) = (&a.file.entries[phys[k]], a.contents[phys[k]].as_ref().map_err(|e| format!("random access fails on entry {k}: {e}"))?);
        if let Some(e) = &st.entry {
            ensure!(e.name == want.name, "entry {k}: stream name {:?}, listed {:?}", e.name, want.name);
            ensure!(e.method == want.method, "entry {k}: stream method {}, listed {}", e.method, want.method);
            ensure!(e.date == want.date, "entry {k}: stream timestamp {:?}, listed {:?}", e.date, want.date);
        }
        let full = matches!(acts[k].1, Action::ReadDone | Action::ReadSkip);
        if full {
            ensure!(st.data == *data, "entry {k}: stream content of {} bytes differs from the {} bytes of random access (first difference {:?})", st.data.len(), data.len(), st.data.iter().zip(data).position(|(a, b)| a != b));
        } else {
            ensure!(data.starts_with(&st.data), "entry {k}: partial stream content is not a prefix");
        }
    }
    Ok(())
}

fn walk(bytes: &Arc<Vec<u8>>, tokio: bool, r: &mut Rng, act: &mut dyn FnMut(usize) -> (bool, Action)) -> StreamView {
    let (src, probe) = Source::new(bytes.clone(), Schedule::smooth(), r.fork());
    probe.set_budget(10_000 + 8 * bytes.len() as u64);
    if tokio {
        use tokio_util::compat::FuturesAsyncReadCompatExt;
        let z = stream::ZipFileReader::with_tokio(src.compat());
        run(view::stream_view_open(z, r, act))
    } else {
        run(view::stream_view(src, r, act))
    }
}

fn case_run(case: &mut Case) -> Verdict {
    let mut r = case.rng.fork();
    let l = Limits { entries: 5, content: if r.chance(1, 40) { 400_000 } else { 9_000 }, name: 30, plain_names: false };
    let (bytes, phys, dd, d64, [like_signature, masked]) = forward_archive(&mut r, &l)?;
    let n = phys.len();
    let mut rr = r.fork();
    let a = run(view::mem_view(bytes.clone(), &mut rr, &mut |_| (true, How::Checked, false))).map_err(|e| format!("in-memory reader: {e:?}"))?;
    ensure!(a.file.entries.len() == n, "listing has {} of {n} entries", a.file.entries.len());
    let data = Arc::new(bytes);
    case.eval();
    case.distinct(&data);
    let d = format!("{n} entries, {dd} descriptors ({d64} ZIP64), {} bytes", data.len());
    case.sample(|| d);
    if n == 0 {
        case.count("empty_archives", 1);
    }
    // Walks.
    for w in 0..3 {
        let acts: Vec<(bool, Action)> = (0..=n)
            .map(|_| {
                let x = r.below(4);
                let a = match (w, x) {
                    (0, _) => Action::ReadDone,
                    (_, 0) => Action::ReadDone,
                    (_, 1) => Action::ReadSkip,
                    (_, 2) => Action::PartSkip,
                    _ => Action::Skip,
                };
                (r.chance(1, 2), a)
            })
            .collect();
        let acts: Vec<(bool, Action)> = acts
            .into_iter()
            .enumerate()
            .map(|(k, (b, x))| {
                if k < n && matches!(a.contents[phys[k]].as_ref(), Ok(d) if d.is_empty()) && r.chance(1, 2) {
                    (b, Action::Done)
                } else {
                    (b, x)
                }
            })
            .collect();
        let tokio = r.chance(1, 3);
        let v = walk(&data, tokio, &mut r, &mut |k| acts.get(k).copied().unwrap_or((true, Action::ReadDone)));
        case.say(|| format!("walk {w}: {acts:?} -> {} steps, {:?}", v.steps.len(), v.end));
        agree(&v, &a, &phys, &acts).map_err(|e| format!("{e} (actions {acts:?}, tokio={tokio})"))?;
        case.count("stream_entries", n as u64);
        case.count("stream_clean_ends", 1);
        case.count("descriptors_crossed", dd);
        case.count("zip64_descriptors", d64);
        case.count("masked_descriptors", masked);
        case.count("checksums_like_signatures", like_signature);
        case.count("partial_skips", acts[..n].iter().filter(|a| a.1 == Action::PartSkip).count() as u64);
        case.count("full_skips", acts[..n].iter().filter(|a| a.1 == Action::Skip).count() as u64);
    }
    // Finishing an entry too early.
    if n > 0 {
        let k = r.below(n);
        let len = a.contents[phys[k]].as_ref().map(|d| d.len()).unwrap_or(0);
        if len > 0 {
            let part = r.chance(1, 2) && len > 20_001;
            let early = if part { Action::PartDone } else { Action::Done };
            let v = walk(&data, false, &mut r, &mut |i| (true, if i == k { early } else { Action::Skip }));
            match &v.end {
                Err(e) if e == "EOFNotReached" && v.steps.len() == k + 1 => case.count("early_finish_refused", 1),
                o => bail!("finishing entry {k} with {len} bytes of which {} were delivered ends with {o:?} after {} steps", v.steps.last().map_or(0, |s| s.data.len()), v.steps.len()),
            }
        }
    }
    Ok(())
}
