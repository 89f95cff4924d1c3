//! Content round trip through every writer call and every random-access reader.
use crate::chaos::{Schedule, Source};
use crate::exec::{run, run_tokio};
use crate::gen::{self, Limits, Program};
use crate::report::{Case, Prop, Tier, Verdict};
use crate::view::{self, ArchiveView, How};
use crate::{bail, ensure, zipref};
use async_zip::base::write::ZipFileWriter;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C01",
    level: "exploration",
    rule: "case = random write program (0..8 entries; whole/stream/precompressed calls, 6 writable methods plus precompressed Deflate64, levels, chunkings, flushes, ZIP64 modes, contents incl. empty, incompressible, signature-stuffed, archives-in-archives) executed by the real writer and read back by the real in-memory, seekable and file-system readers; non-trivial = at least one entry; distinct by program and content",
    assumptions: &["codec libraries are exercised as linked by the crate", "CRC-32 oracle is the harness' own table implementation"],
    cases: |t| t.pick(24000, 600000),
    budget: |t| t.pick(60, 1500),
    threads: 8,
    run: case_run,
    must_observe: &["huge_entries", "entries_whole", "entries_stream", "entries_wholepre", "entries_streampre", "read_mem", "read_seek", "read_fs"],
    exhaustive: false,
};

/// Compares what a reader delivered with what was written.
pub fn compare(p: &Program, v: &ArchiveView, reader: &str) -> Verdict {
    ensure!(v.file.entries.len() == p.entries.len(), "{reader}: {} entries were written, {} are listed", p.entries.len(), v.file.entries.len());
    for (i, (s, e)) in p.entries.iter().zip(&v.file.entries).enumerate() {
        let w = format!("{reader}: entry {i} ({})", s.describe());
        ensure!(e.name.stored() == s.name.stored(), "{w}: listed as {}", e.name.short());
        match &v.contents[i] {
            Err(x) => bail!("{w}: reading failed: {x}"),
            Ok(d) => ensure!(*d == s.content, "{w}: content differs ({} bytes delivered, {} written, first difference at {:?})", d.len(), s.content.len(), d.iter().zip(&s.content).position(|(a, b)| a != b)),
        }
        ensure!(e.usize == s.content.len() as u64, "{w}: uncompressed size is reported as {}, written {}", e.usize, s.content.len());
        let crc = zipref::crc32(&s.content);
        ensure!(e.crc == crc, "{w}: CRC is reported as {:#x}, content has {crc:#x}", e.crc);
        ensure!(e.method == s.method, "{w}: method is reported as {}", e.method);
    }
    Ok(())
}

pub fn scratch_file(tag: &str) -> std::path::PathBuf {
    crate::scratch().join(format!("{tag}-{:?}.zip", std::thread::current().id()).replace(['(', ')'], "_"))
}

/// How entries are read, at random, honouring what is text.
pub fn plan<'a>(p: &'a Program, r: &'a mut crate::rng::Rng) -> impl FnMut(usize) -> (bool, How, bool) + 'a {
    move |i| {
        let text = p.entries.get(i).is_some_and(|s| std::str::from_utf8(&s.content).is_ok());
        (r.chance(2, 3), How::random(r), text)
    }
}

fn case_run(case: &mut Case) -> Verdict {
    let big = match case.tier {
        Tier::Quick => case.rng.chance(1, 60),
        Tier::Thorough => case.rng.chance(1, 30),
    };
    let l = Limits { entries: 8, content: if big { 2_000_000 } else { 70_000 }, name: 30, plain_names: false };
    let mut p = gen::program(&mut case.rng, &l);
    // Beyond every buffer and window of the encoders.
    if case.idx % 3000 == 1500 && !cfg!(miri) {
        if let Some(s) = p.entries.first_mut() {
            let n = if matches!(s.method, 12 | 14 | 95) { case.rng.range(2 << 20, 6 << 20) } else { case.rng.range(2 << 20, 40 << 20) };
            let n = if case.rng.chance(1, 2) { n & !0xFFFFF } else { n };
            let k = case.rng.range(1, 200_000);
            let part = case.rng.bytes(k);
            s.content = part.iter().copied().cycle().take(n).collect();
            case.count("huge_entries", 1);
        }
    }
    case.say(|| p.describe());
    // Write through one of the interfaces.
    let bytes = match case.rng.below(3) {
        0 => gen::archive(&p)?,
        1 => run(async { gen::execute(ZipFileWriter::with_tokio(Vec::<u8>::new()), &p).await.map(|w| w.into_inner()) })?,
        _ => {
            let (sink, probe) = crate::chaos::Sink::new(Schedule::smooth(), case.rng.fork());
            run(gen::execute(ZipFileWriter::new(sink), &p))?;
            probe.bytes()
        }
    };
    for s in &p.entries {
        let k = match s.call {
            gen::Call::Whole => "entries_whole",
            gen::Call::Stream => "entries_stream",
            gen::Call::WholePre => "entries_wholepre",
            gen::Call::StreamPre => "entries_streampre",
        };
        case.count(k, 1);
        case.count("content_bytes", s.content.len() as u64);
    }
    let n = p.entries.len() as u64;
    let (mut r1, mut r2) = (case.rng.fork(), case.rng.fork());
    // In memory.
    let v = run(view::mem_view(bytes.clone(), &mut r1, &mut plan(&p, &mut r2))).map_err(|e| format!("in-memory reader refuses the archive: {e:?}; {}", p.describe()))?;
    compare(&p, &v, "mem")?;
    case.count("read_mem", n);
    // Seekable, futures or tokio flavour.
    let data = Arc::new(bytes);
    let (src, probe) = Source::new(data.clone(), Schedule::smooth(), case.rng.fork());
    probe.set_budget(2000 + data.len() as u64 * 4);
    let v = if case.rng.chance(1, 2) {
        run(view::seek_view(src, &mut r1, &mut plan(&p, &mut r2)))
    } else {
        run(async {
            use tokio_util::compat::FuturesAsyncReadCompatExt;
            let z = async_zip::base::read::seek::ZipFileReader::with_tokio(src.compat()).await?;
            Ok(view::seek_view_open(z, &mut r1, &mut plan(&p, &mut r2)).await)
        })
    }
    .map_err(|e: async_zip::error::ZipError| format!("seekable reader refuses the archive: {e:?}; {}", p.describe()))?;
    compare(&p, &v, "seek")?;
    case.count("read_seek", n);
    // File system.
    if case.idx % 4 == 0 {
        let f = scratch_file("c01");
        std::fs::write(&f, &*data).map_err(|e| std::panic::panic_any(crate::report::Infra(format!("scratch file: {e}")))).unwrap();
        let v = run_tokio(view::fs_view(&f, &mut r1, &mut plan(&p, &mut r2))).map_err(|e| format!("file-system reader refuses the archive: {e:?}; {}", p.describe()))?;
        let _ = std::fs::remove_file(&f);
        compare(&p, &v, "fs")?;
        case.count("read_fs", n);
    }
    case.eval();
    if n > 0 {
        case.distinct(p.describe().as_bytes());
        let s = p.describe();
        case.sample(|| s);
    }
    Ok(())
}
