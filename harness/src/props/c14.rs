//! Around the classic limits, over a store in which runs of zeros take no space.
use crate::chaos::{Schedule, Sink, Source};
use crate::exec::run;
use crate::gen::{Call, Mode};
use crate::report::{Case, Prop, Tier, Verdict};
use crate::rng::Rng;
use crate::sparse::{crc_zeros, zeros, Sparse};
use crate::view::EntryView;
use crate::zipref;
use crate::{bail, ensure};
use async_zip::base::read::{seek, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{ZipEntryBuilder, ZipString};
use futures_lite::io::{AsyncReadExt, AsyncWriteExt};
use std::sync::{Arc, Mutex};

pub const PROP: Prop = Prop {
    id: "C14",
    level: "exploration",
    rule: "case = one of: N entries for N around 2^16 (whole, streamed, alternating; 3 modes); entries of real sizes around 2^32 (whole and streamed, zero content; stored, and compressed to much less); a random sequence of entries in one of the 3 modes in which fillers place headers and the directory exactly at offsets around 2^32 (and far beyond) and precompressed entries claim sizes around 2^32; a central directory of about 2^32 bytes. The sink is a sparse store; oracle: model of what has to be accepted or refused with the ZIP64-needed error, independent structural parse of the result, exact sizes/offsets/counts and contents through the seekable (and in part the stream) reader, absence of any ZIP64 structure when forbidden, presence of the end records when forced, agreement of the zip64 report; non-trivial = every case with a value within 2 of a limit or beyond; distinct by the sequence of values",
    assumptions: &["entry contents beyond a few kilobytes are zeros", "values equal to the limit itself may be refused or recorded when ZIP64 is forbidden", "the contradictory combination of forcing and forbidding ZIP64 is not judged"],
    cases: |t| COUNT_CASES + SIZE_CASES + t.pick(2, 9) + t.pick(COMPRESSED_QUICK, COMPRESSED_ALL) + t.pick(20000, 500000),
    budget: |t| t.pick(150, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["count_cases", "real_size_cases", "directory_size_cases", "compressed_size_cases", "layout_cases", "large_data_small_claims", "offsets_at_limit", "offsets_beyond_limit", "sizes_at_limit", "sizes_beyond_limit", "refused_zip64_needed", "zip64_archives", "classic_archives", "beyond_4g_contents_read", "stream_walks"],
    exhaustive: false,
};

const M: u64 = 0xFFFF_FFFF;
const COUNTS: [usize; 5] = [65534, 65535, 65536, 65537, 131072];
const COUNT_CASES: u64 = (COUNTS.len() * 3 * 3) as u64;
const SIZES: [u64; 4] = [M - 1, M, M + 1, M + 70_000];
const SIZE_CASES: u64 = (SIZES.len() * 3 * 2) as u64;
const MODES: [Mode; 3] = [Mode::Auto, Mode::Forbid, Mode::Force];
/// Contents around the limit compressed to much less: (method, call, mode, size).
const COMPRESSED_QUICK: u64 = 12;
const COMPRESSED_ALL: u64 = 48;
/// One case at a time may use gigabytes.
static HEAVY: Mutex<()> = Mutex::new(());

#[derive(Clone, Debug)]
enum Data {
    Zeros(u64),
    Bytes(Vec<u8>),
}

impl Data {
    fn slice(&self) -> &[u8] {
        match self {
            Data::Zeros(n) => &zeros()[..*n as usize],
            Data::Bytes(b) => b,
        }
    }
    fn crc(&self) -> u32 {
        match self {
            Data::Zeros(n) => crc_zeros(*n),
            Data::Bytes(b) => zipref::crc32(b),
        }
    }
}

#[derive(Clone, Debug)]
struct Item {
    call: Call,
    data: Data,
    /// Claimed uncompressed size (precompressed calls).
    claim: Option<u64>,
    name: String,
    comment: usize,
    /// Read the whole content back.
    verify: bool,
}

impl Item {
    fn size(&self) -> u64 {
        self.claim.unwrap_or(self.data.slice().len() as u64)
    }
    fn describe(&self) -> String {
        format!("{:?} {}B{}", self.call, self.data.slice().len(), self.claim.map_or(String::new(), |c| format!(" claiming {c:#x}")))
    }
}

type Z = ZipFileWriter<Sink<Sparse>>;

async fn put(w: &mut Z, it: &Item) -> Result<(), ZipError> {
    let d = it.data.slice();
    // A claimed size other than the data's is only possible for a compressing method.
    let method = if it.claim.is_some_and(|c| c != d.len() as u64) { async_zip::Compression::Deflate } else { async_zip::Compression::Stored };
    let mut b = ZipEntryBuilder::new(ZipString::from(it.name.clone()), method);
    if it.comment > 0 {
        b = b.comment(ZipString::from("\0".repeat(it.comment)));
    }
    match it.call {
        Call::Whole => w.write_entry_whole(b, d).await,
        Call::WholePre => w.write_entry_whole_precompressed(b.crc32(it.data.crc()).uncompressed_size(it.size()), d).await,
        Call::Stream | Call::StreamPre => {
            let mut e = if it.call == Call::Stream { w.write_entry_stream(b).await? } else { w.write_entry_stream_precompressed(b.crc32(it.data.crc()).uncompressed_size(it.size())).await? };
            for c in d.chunks(700 << 20) {
                e.write_all(c).await?;
            }
            e.close().await
        }
    }
}

fn needed(e: &ZipError) -> bool {
    matches!(e, ZipError::Zip64Needed(_))
}

/// Writes the items, judges every answer, reads everything back.
fn judge(case: &mut Case, r: &mut Rng, mode: Mode, items: &[Item], place_directory: Option<u64>, walk: bool) -> Verdict {
    let (sink, probe) = Sink::with_store(Sparse::default(), Schedule::smooth(), r.fork());
    let mut w = ZipFileWriter::new(sink);
    match mode {
        Mode::Forbid => w = w.force_no_zip64(),
        Mode::Force => w = w.force_zip64(),
        Mode::Auto => {}
    }
    let mut kept: Vec<(usize, u64)> = vec![];
    for (i, it) in items.iter().enumerate() {
        let off = probe.size();
        let d = it.data.slice().len() as u64;
        let biggest = it.size().max(d).max(off);
        let must_refuse = mode == Mode::Forbid && (biggest > M || kept.len() >= 65535);
        let may_refuse = mode == Mode::Forbid && (biggest >= M || kept.len() >= 65534);
        case.count("offsets_at_limit", (off.abs_diff(M) <= 1) as u64);
        case.count("offsets_beyond_limit", (off > M) as u64);
        case.count("sizes_at_limit", (it.size().abs_diff(M) <= 1 || d.abs_diff(M) <= 1) as u64);
        case.count("sizes_beyond_limit", (it.size() > M || d > M) as u64);
        match run(put(&mut w, it)) {
            Ok(()) => {
                ensure!(!must_refuse, "entry {i} ({}) at offset {off:#x} is accepted although it needs ZIP64, which is forbidden", it.describe());
                kept.push((i, off));
            }
            Err(e) => {
                ensure!(may_refuse, "entry {i} ({}) at offset {off:#x} is refused: {e:?}", it.describe());
                ensure!(needed(&e), "entry {i} ({}) at offset {off:#x} fails with {e:?} instead of the ZIP64-needed error", it.describe());
                case.count("refused_zip64_needed", 1);
            }
        }
    }
    // A filler may move the directory.
    if let Some(target) = place_directory {
        let off = probe.size();
        let head = 30 + 6;
        if off + head <= target && target - off - head < 0xFFFF_0000 {
            let it = Item { call: Call::WholePre, data: Data::Zeros(target - off - head), claim: None, name: "mover!".into(), comment: 0, verify: false };
            if let Err(e) = run(put(&mut w, &it)) {
                ensure!(mode == Mode::Forbid && needed(&e) && off >= M, "the filler before the directory is refused: {e:?}");
            } else {
                kept.push((usize::MAX, off));
            }
        }
    }
    let cd_off = probe.size();
    case.count("offsets_at_limit", (cd_off.abs_diff(M) <= 1) as u64);
    let closed = run(w.close());
    let cd_len = probe.size() - cd_off - 22;
    if let Err(e) = closed {
        ensure!(needed(&e) && mode == Mode::Forbid, "closing fails: {e:?} (mode {mode:?}, directory at {cd_off:#x})");
        ensure!(cd_off >= M || probe.size() - cd_off >= M, "closing is refused although the directory at {cd_off:#x} needs no ZIP64");
        case.count("refused_zip64_needed", 1);
        return Ok(());
    }
    if mode == Mode::Forbid {
        ensure!(cd_off <= M && cd_len <= M && kept.len() <= 65535, "closing succeeds although the archive needs ZIP64, which is forbidden (directory at {cd_off:#x}, {} entries)", kept.len());
    }
    let store = std::mem::take(&mut probe.0.lock().unwrap().data);
    let store = Arc::new(store);
    // Independent view.
    let mut a = zipref::parse(&*store, 0).map_err(|e| format!("independent parser: {e}"))?;
    zipref::check_layout(&*store, &a, items.len() > kept.len() - kept.iter().any(|k| k.0 == usize::MAX) as usize)?;
    zipref::check_versions(&a)?;
    ensure!(a.centrals.len() == kept.len(), "{} entries were accepted, {} are recorded", kept.len(), a.centrals.len());
    for c in &mut a.centrals {
        c.comment = vec![];
    }
    match mode {
        Mode::Forbid => {
            ensure!(a.z64.is_none(), "ZIP64 end records although ZIP64 is forbidden");
            for (c, l) in a.centrals.iter().zip(&a.locals) {
                ensure!(c.extra.iter().chain(&l.extra).all(|x| x.id != 1), "a ZIP64 field although ZIP64 is forbidden");
            }
        }
        Mode::Force => ensure!(a.z64.is_some(), "no ZIP64 end records although ZIP64 is forced"),
        Mode::Auto => {
            let need = kept.len() > 65535 || a.cd_off > M || a.cd_size > M || a.centrals.iter().any(|c| c.usize > M || c.csize > M || c.off > M);
            ensure!(!need || a.z64.is_some(), "no ZIP64 end records although a limit is exceeded");
        }
    }
    case.count(if a.z64.is_some() { "zip64_archives" } else { "classic_archives" }, 1);
    // The readers' view.
    let (src, p2) = Source::new(store.clone(), Schedule::smooth(), r.fork());
    p2.set_budget(4_000_000 + a.centrals.len() as u64 * 64 + if items.iter().any(|i| i.verify) { store_len(&store) / 1024 } else { 0 });
    let mut z = match run(seek::ZipFileReader::new(src)) {
        Ok(z) => z,
        Err(e) => bail!("the seekable reader refuses the archive: {e:?}"),
    };
    ensure!(z.file().zip64() == a.z64.is_some(), "the reader reports zip64 = {}, the end records say {}", z.file().zip64(), a.z64.is_some());
    ensure!(z.file().entries().len() == kept.len(), "{} entries are listed, {} were written", z.file().entries().len(), kept.len());
    for (k, (i, off)) in kept.iter().enumerate() {
        let e = &z.file().entries()[k];
        ensure!(e.header_offset() == *off, "entry {k}: header offset reads {:#x}, it is at {off:#x}", e.header_offset());
        if *i == usize::MAX {
            continue;
        }
        let it = &items[*i];
        ensure!(e.uncompressed_size() == it.size(), "entry {k} ({}): uncompressed size reads {:#x}", it.describe(), e.uncompressed_size());
        ensure!(e.compressed_size() == it.data.slice().len() as u64, "entry {k} ({}): compressed size reads {:#x}", it.describe(), e.compressed_size());
        ensure!(e.crc32() == it.data.crc(), "entry {k} ({}): CRC reads {:#x}", it.describe(), e.crc32());
        ensure!(e.filename().as_bytes() == it.name.as_bytes(), "entry {k} ({}): name reads {:?}", it.describe(), e.filename().as_bytes());
        ensure!(e.comment().as_bytes().len() == it.comment, "entry {k} ({}): comment has {} bytes", it.describe(), e.comment().as_bytes().len());
    }
    let picks: Vec<usize> = if kept.len() <= 40 { (0..kept.len()).collect() } else { (0..20).map(|_| r.below(kept.len())).chain([0, kept.len() - 1, 65534.min(kept.len() - 1), 65535.min(kept.len() - 1)]).collect() };
    for k in picks {
        let (i, off) = kept[k];
        if i == usize::MAX || items[i].claim.is_some_and(|c| c != items[i].data.slice().len() as u64) {
            // Not decodable by construction; opening must work.
            if let Err(e) = run(z.reader_without_entry(k)) {
                bail!("entry {k} at {off:#x} cannot be opened: {e:?}");
            }
            continue;
        }
        let it = &items[i];
        let want = it.data.slice();
        let verify = it.verify || want.len() < 100_000;
        let got: Verdict = run(async {
            let mut rd = match z.reader_with_entry(k).await {
                Ok(rd) => rd,
                Err(e) => bail!("entry {k} ({}) at {off:#x} cannot be opened: {e:?}", it.describe()),
            };
            let mut buf = vec![1u8; 1 << 18];
            let mut n = 0usize;
            loop {
                let m = match rd.read(&mut buf).await {
                    Ok(m) => m,
                    Err(e) => bail!("entry {k} ({}) at {off:#x} cannot be read: {e:?}", it.describe()),
                };
                if m == 0 {
                    break;
                }
                match &it.data {
                    Data::Zeros(_) => ensure!(buf[..m].iter().all(|x| *x == 0), "entry {k} ({}) delivers other bytes", it.describe()),
                    Data::Bytes(b) => ensure!(b.get(n..n + m) == Some(&buf[..m]), "entry {k} ({}) delivers other bytes", it.describe()),
                }
                n += m;
                if !verify {
                    return Ok(());
                }
            }
            ensure!(n == want.len(), "entry {k} ({}) delivers {n} bytes", it.describe());
            ensure!(rd.compute_hash() == it.data.crc(), "entry {k} ({}) hashes differently", it.describe());
            Ok(())
        });
        got?;
        case.count("beyond_4g_contents_read", (off > M) as u64);
    }
    drop(z);
    // Forward.
    if walk && items.iter().all(|i| !i.call.streamed() && i.claim.is_none()) && kept.iter().all(|k| k.0 != usize::MAX) && kept.len() == items.len() {
        let (src, p3) = Source::new(store.clone(), Schedule::smooth(), r.fork());
        p3.set_budget(4_000_000 + a.centrals.len() as u64 * 64 + store_len(&store) / 1024);
        let n: Result<usize, String> = run(async {
            let mut z = stream::ZipFileReader::new(src);
            let mut k = 0;
            while let Some(rd) = z.next_with_entry().await.map_err(|e| format!("stepping to entry {k} fails: {e:?}"))? {
                let v = EntryView::of(rd.reader().entry());
                let it = &items[kept[k].0];
                ensure!(v.name.raw == it.name.as_bytes() && v.usize == it.size() && v.csize == it.data.slice().len() as u64 && v.crc == it.data.crc(), "stream entry {k} ({}) reads {v:?}", it.describe());
                k += 1;
                z = rd.skip().await.map_err(|e| format!("skipping entry {k} fails: {e:?}"))?;
            }
            Ok(k)
        });
        let n = n?;
        ensure!(n == kept.len(), "the stream reader yields {n} of {} entries", kept.len());
        case.count("stream_walks", 1);
    }
    Ok(())
}

fn store_len(s: &Sparse) -> u64 {
    use crate::chaos::Bytes;
    s.len()
}

fn small(r: &mut Rng) -> Data {
    let k = r.below(60);
    Data::Bytes(r.bytes(k))
}

/// A value around the limit, or beyond.
fn around(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => M - 2,
        1 => M - 1,
        2 | 3 => M,
        4 | 5 => M + 1,
        6 => M + 2,
        7 => M + 3 + r.below(1000) as u64,
        8 => M - 3 - r.below(1000) as u64,
        9 => 2 * M + 2 + r.below(3) as u64,
        10 => (1 << 32) * r.range(1, 4) as u64 + r.below(100) as u64,
        _ => r.below(100_000) as u64,
    }
}

fn layout_case(case: &mut Case, r: &mut Rng) -> Verdict {
    let mode = *r.pick(&MODES);
    let n = r.range(1, 6);
    let mut items: Vec<Item> = vec![];
    let mut off = 0u64;
    let name = |i: usize| format!("e{i:05}");
    // Bytes an entry occupies apart from its data.
    let over = |c: Call| match (c, mode) {
        (Call::Whole | Call::WholePre, _) => 36,
        (_, Mode::Forbid) => 36 + 16,
        _ => 36 + 20 + 24,
    };
    for _ in 0..n {
        // Aim the header of the next entry at a place of interest.
        let target = around(r);
        if off + 60 < target && target - off < 18 << 30 && r.chance(2, 3) {
            let d = target - off - 36;
            // A filler beyond the limit has a ZIP64 field of its own.
            let claim = if r.chance(1, 4) { Some(around(r)) } else { None };
            let extra = if d >= M || claim.is_some_and(|c| c > M) { 20 } else { 0 };
            if d > 2 * extra {
                case.count("large_data_small_claims", (d - extra > M && claim.is_some_and(|c| c < M)) as u64);
                items.push(Item { call: Call::WholePre, data: Data::Zeros(d - extra), claim, name: name(items.len()), comment: 0, verify: false });
                off = target;
            }
        }
        let call = *r.pick(&[Call::Whole, Call::Stream, Call::WholePre, Call::StreamPre]);
        // Data of about 4 GiB of their own, wherever they come to lie.
        let data = if call == Call::WholePre && r.chance(1, 5) { Data::Zeros(M - 2 + r.below(5) as u64) } else { small(r) };
        let mut it = Item { call, data, claim: None, name: name(items.len()), comment: if r.chance(1, 3) { r.below(50) } else { 0 }, verify: false };
        if matches!(call, Call::WholePre | Call::StreamPre) && r.chance(2, 3) {
            let c = match r.below(8) {
                0 => u64::MAX >> r.below(30),
                _ => around(r),
            };
            it.claim = Some(c);
        }
        off += over(call) + if it.data.slice().len() as u64 > M { 20 } else { 0 } + it.data.slice().len() as u64;
        items.push(it);
    }
    let place = if r.chance(1, 2) { Some(around(r)) } else { None };
    let what = format!("{mode:?} [{}] directory aimed at {place:x?}", items.iter().map(|i| i.describe()).collect::<Vec<_>>().join("; "));
    case.say(|| what.clone());
    let walk = items.iter().map(|i| i.data.slice().len() as u64).sum::<u64>() < 1 << 28;
    judge(case, r, mode, &items, place, walk).map_err(|e| format!("{e}; {what}"))?;
    case.count("layout_cases", 1);
    case.distinct(what.as_bytes());
    case.sample(|| what);
    Ok(())
}

fn compressed_case(case: &mut Case, r: &mut Rng, k: u64) -> Verdict {
    let mode = MODES[(k % 3) as usize];
    let call = [Call::Stream, Call::Whole][(k / 3 % 2) as usize];
    let size = [M + 1, M, M - 1, M + 5000][(k / 6 % 4) as usize];
    let method = [93u16, 8][(k / 24) as usize];
    let data = &zeros()[..size as usize];
    let what = format!("{mode:?} {call:?} entry of {size:#x} bytes with method {method}");
    let (sink, probe) = Sink::with_store(Sparse::default(), Schedule::smooth(), r.fork());
    let mut w = ZipFileWriter::new(sink);
    match mode {
        Mode::Forbid => w = w.force_no_zip64(),
        Mode::Force => w = w.force_zip64(),
        Mode::Auto => {}
    }
    let entry = |n: &str, m: u16| ZipEntryBuilder::new(ZipString::from(n.to_string()), crate::gen::method(m)).deflate_option(async_zip::DeflateOption::Fast);
    let res: Result<bool, ZipError> = run(async {
        w.write_entry_whole(entry("before", 0), b"before").await?;
        let big = if call == Call::Whole {
            w.write_entry_whole(entry("large", method), data).await
        } else {
            async {
                let mut e = w.write_entry_stream(entry("large", method)).await?;
                for c in data.chunks(100 << 20) {
                    e.write_all(c).await?;
                }
                e.close().await
            }
            .await
        };
        let big = match big {
            Ok(()) => true,
            Err(e) if needed(&e) => false,
            Err(e) => return Err(e),
        };
        w.write_entry_whole(entry("after", 8), b"after").await?;
        w.close().await?;
        Ok(big)
    });
    let big = res.map_err(|e| format!("{what}: {e:?}"))?;
    ensure!(big || (mode == Mode::Forbid && size >= M), "{what} is refused");
    ensure!(!big || mode != Mode::Forbid || size <= M, "{what} is accepted although it needs ZIP64, which is forbidden");
    case.count("refused_zip64_needed", !big as u64);
    let store = Arc::new(std::mem::take(&mut probe.0.lock().unwrap().data));
    let a = zipref::parse(&*store, 0).map_err(|e| format!("{what}: independent parser: {e}"))?;
    zipref::check_layout(&*store, &a, !big).and_then(|_| zipref::check_versions(&a)).map_err(|e| format!("{what}: {e}"))?;
    let names: Vec<&[u8]> = if big { vec![b"before", b"large", b"after"] } else { vec![b"before", b"after"] };
    ensure!(a.centrals.iter().map(|c| &c.name[..]).eq(names.iter().copied()), "{what}: entries other than those accepted are recorded");
    if mode == Mode::Forbid {
        ensure!(a.z64.is_none() && a.centrals.iter().all(|c| c.extra.iter().all(|x| x.id != 1)), "{what}: a ZIP64 structure although ZIP64 is forbidden");
    }
    if mode == Mode::Force {
        ensure!(a.z64.is_some(), "{what}: no ZIP64 end records although ZIP64 is forced");
    }
    let (src, p2) = Source::new(store.clone(), Schedule::smooth(), r.fork());
    p2.set_budget(50_000_000);
    let verdict: Verdict = run(async {
        let mut z = seek::ZipFileReader::new(src).await.map_err(|e| format!("the seekable reader refuses the archive: {e:?}"))?;
        ensure!(z.file().entries().len() == names.len(), "{} entries are listed", z.file().entries().len());
        for k in 0..names.len() {
            let n = z.file().entries()[k].uncompressed_size();
            let (len, crc) = match names[k] {
                b"large" => (size, crc_zeros(size)),
                n => (n.len() as u64, zipref::crc32(n)),
            };
            ensure!(n == len && z.file().entries()[k].crc32() == crc, "entry {k}: uncompressed size reads {n:#x}");
            let mut rd = z.reader_with_entry(k).await.map_err(|e| format!("entry {k} cannot be opened: {e:?}"))?;
            let mut buf = vec![0u8; 1 << 20];
            let mut total = 0;
            loop {
                match rd.read(&mut buf).await.map_err(|e| format!("entry {k} cannot be read: {e:?}"))? {
                    0 => break,
                    m => total += m as u64,
                }
            }
            ensure!(total == len && rd.compute_hash() == crc, "entry {k} delivers {total:#x} bytes");
        }
        Ok(())
    });
    verdict.map_err(|e| format!("{what}: {e}"))?;
    case.count("sizes_at_limit", (size.abs_diff(M) <= 1) as u64);
    case.count("sizes_beyond_limit", (size > M) as u64);
    case.count("compressed_size_cases", 1);
    case.distinct(what.as_bytes());
    case.sample(|| what);
    Ok(())
}

fn case_run(case: &mut Case) -> Verdict {
    case.eval();
    let mut r = case.rng.fork();
    let mut k = case.idx;
    if k < SIZE_CASES {
        let (s, m, call) = (SIZES[(k % 4) as usize], MODES[(k / 4 % 3) as usize], [Call::Whole, Call::Stream][(k / 12) as usize]);
        let items = vec![
            Item { call: Call::Whole, data: small(&mut r), claim: None, name: "first".into(), comment: 0, verify: true },
            Item { call, data: Data::Zeros(s), claim: None, name: "large".into(), comment: 3, verify: true },
            Item { call: Call::Whole, data: small(&mut r), claim: None, name: "after".into(), comment: 0, verify: true },
            Item { call: Call::Stream, data: small(&mut r), claim: None, name: "streamed".into(), comment: 0, verify: true },
        ];
        let items = if call == Call::Whole && k % 3 != 2 { items[..3].to_vec() } else { items };
        let what = format!("{m:?} {call:?} entry of {s:#x} bytes");
        judge(case, &mut r, m, &items, None, true).map_err(|e| format!("{e}; {what}"))?;
        case.count("real_size_cases", 1);
        case.distinct(what.as_bytes());
        case.sample(|| what);
        return Ok(());
    }
    k -= SIZE_CASES;
    if k < COUNT_CASES {
        let (n, m, c) = (COUNTS[(k % 5) as usize], MODES[(k / 5 % 3) as usize], (k / 15) as usize);
        let items: Vec<Item> = (0..n)
            .map(|i| Item { call: if c == 0 || (c == 2 && i % 2 == 0) { Call::Whole } else { Call::Stream }, data: Data::Bytes(vec![b'0' + (i % 10) as u8; i % 3]), claim: None, name: format!("{i:06}"), comment: 0, verify: false })
            .collect();
        let what = format!("{m:?}, {n} entries, {}", ["whole", "streamed", "alternating"][c]);
        judge(case, &mut r, m, &items, None, true).map_err(|e| format!("{e}; {what}"))?;
        case.count("count_cases", 1);
        case.distinct(what.as_bytes());
        case.sample(|| what);
        return Ok(());
    }
    k -= COUNT_CASES;
    let dirs = case.tier.pick(2, 9);
    if k < dirs {
        let _one = HEAVY.lock().unwrap_or_else(|e| e.into_inner());
        // The directory itself reaches the limit.
        let target = match case.tier {
            Tier::Quick => M + 1,
            Tier::Thorough => [M - 1, M, M + 1][(k % 3) as usize],
        };
        let m = MODES[match case.tier {
            Tier::Quick => k as usize,
            Tier::Thorough => (k / 3) as usize,
        }];
        let rec = 46 + 6 + 65535u64;
        let full = (target - 200) / rec;
        let rest = target - full * rec;
        let mut items: Vec<Item> = (0..full).map(|i| Item { call: Call::Whole, data: Data::Bytes(vec![]), claim: None, name: format!("{i:06}"), comment: 65535, verify: false }).collect();
        // One or two more records make it exact.
        let mut left = rest;
        while left > 0 {
            let take = if left > rec { rec - 200 } else { left };
            items.push(Item { call: Call::Whole, data: Data::Bytes(vec![]), claim: None, name: format!("{:06}", items.len()), comment: (take - 52) as usize, verify: false });
            left -= take;
        }
        let what = format!("{m:?}, central directory of {target:#x} bytes");
        judge(case, &mut r, m, &items, None, false).map_err(|e| format!("{e}; {what}"))?;
        case.count("directory_size_cases", 1);
        case.distinct(what.as_bytes());
        case.sample(|| what);
        return Ok(());
    }
    k -= dirs;
    if k < case.tier.pick(COMPRESSED_QUICK, COMPRESSED_ALL) {
        return compressed_case(case, &mut r, k);
    }
    layout_case(case, &mut r)
}
