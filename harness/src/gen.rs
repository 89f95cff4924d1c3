//! Random write programs and their execution.
use crate::rng::Rng;
use crate::view::{dos, EntryView, Str};
use crate::zipref;
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, DeflateOption, ZipDateTimeBuilder, ZipEntry, ZipEntryBuilder};
use futures_lite::io::{AsyncWrite, AsyncWriteExt};
use std::io::IoSlice;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Auto,
    Forbid,
    Force,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Whole,
    Stream,
    WholePre,
    StreamPre,
}

impl Call {
    pub fn streamed(self) -> bool {
        matches!(self, Call::Stream | Call::StreamPre)
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: Str,
    pub comment: Str,
    pub method: u16,
    pub level: Option<i32>,
    pub call: Call,
    pub content: Vec<u8>,
    pub date: u16,
    pub time: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub perm: Option<u16>,
    /// Chunk sizes for streamed data (cycled); empty: one write.
    pub chunks: Vec<usize>,
    /// Flush after every n-th chunk.
    pub flush_every: usize,
    /// Precompressed data made by the codec library instead of the crate's own compress().
    pub foreign: bool,
    /// CRC and sizes the description happens to carry, as one copied from another archive does.
    pub stale: Option<(u32, u64, u64)>,
}

#[derive(Clone, Debug)]
pub struct Program {
    pub mode: Mode,
    pub comment: Option<String>,
    pub entries: Vec<Spec>,
}

pub fn method(m: u16) -> Compression {
    match m {
        0 => Compression::Stored,
        8 => Compression::Deflate,
        9 => Compression::Deflate64,
        12 => Compression::Bz,
        14 => Compression::Lzma,
        93 => Compression::Zstd,
        95 => Compression::Xz,
        _ => panic!("method {m}"),
    }
}

pub const WRITABLE: [u16; 6] = [0, 8, 12, 14, 93, 95];

pub fn any_method(r: &mut Rng) -> u16 {
    // The LZMA family sets up large encoders, so it comes up less often.
    *r.pick(&[0, 0, 0, 0, 0, 8, 8, 8, 8, 8, 8, 12, 12, 93, 93, 93, 14, 95])
}

pub fn content(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 64),
        3 | 4 => r.range(1, 600),
        5 => r.range(2040, 2060),
        6 => r.range(4090, 4100),
        7 => r.range(8185, 8200),
        8 => r.range(32760, 32775),
        9 => r.range(65530, 65545),
        10 => r.range(600, 20000),
        _ => r.range(0, max),
    }
    .min(max);
    let kind = r.below(8);
    let mut v = match kind {
        0 => vec![0; n],
        1 => r.bytes(n),
        2 => {
            // text, valid UTF-8
            let words = ["lorem ", "ipsum ", "dolor ", "sit ", "amet ", "zürich ", "日本 ", "\n"];
            let mut s = String::new();
            while s.len() < n {
                s.push_str(r.pick(&words));
            }
            s.into_bytes()
        }
        3 => {
            // stuffed with ZIP signatures
            let mut v = vec![];
            let sigs = [zipref::LFH, zipref::CDH, zipref::EOCD, zipref::Z64EOCD, zipref::Z64LOC, zipref::DESC];
            while v.len() < n {
                if r.chance(1, 2) {
                    v.extend(r.pick(&sigs).to_le_bytes());
                } else {
                    let k = r.below(9);
                    v.extend(r.bytes(k));
                }
            }
            v.truncate(n);
            v
        }
        4 => {
            // a ZIP archive as content
            let inner = r.below(64);
            let s = zipref::Synth { entries: vec![zipref::SynthEntry::new(b"inner", 0, r.bytes(inner), 1)], ..Default::default() };
            let mut v = s.build().0;
            while v.len() < n {
                let c = v.clone();
                v.extend(c);
            }
            v.truncate(n.max(150).min(max.max(150)));
            v
        }
        5 => {
            let p = r.range(1, 40);
            let pat = r.bytes(p);
            (0..n).map(|i| pat[i % pat.len()]).collect()
        }
        6 => (0..n).map(|i| (i / 7) as u8 ^ if r.chance(1, 50) { r.u8() } else { 0 }).collect(),
        _ => vec![r.u8(); n],
    };
    // Checksums that look like something else.
    if kind != 2 && v.len() >= 8 && r.chance(1, 20) {
        let k = v.len() - 4;
        let f = zipref::forge(&v[..k], *r.pick(&[zipref::DESC, zipref::DESC, 0, u32::MAX, zipref::LFH, zipref::CDH, zipref::EOCD]));
        v[k..].copy_from_slice(&f);
    }
    v
}

fn utf8_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max.max(1) + 1);
    let mut s = String::new();
    while s.len() < n {
        match r.below(6) {
            0..=2 => s.push((b'a' + r.below(26) as u8) as char),
            3 => s.push(*r.pick(&['/', '.', ' ', '_', '-', '\\', '"', '\u{7f}', '\0', '\n'])),
            4 => s.push(*r.pick(&['é', 'ß', 'я', '中', '文', '🎉', '\u{202e}', '\u{feff}', '\u{10ffff}'])),
            _ => s.push((b'0' + r.below(10) as u8) as char),
        }
    }
    s
}

fn non_ascii_raw(r: &mut Rng, max: usize) -> Vec<u8> {
    let k = r.range(1, max.max(2));
    let mut v = r.bytes(k);
    let i = r.below(v.len());
    v[i] |= 0x80;
    v
}

/// A name or comment. `nonempty` for names.
pub fn string(r: &mut Rng, max: usize, nonempty: bool) -> Str {
    match r.below(10) {
        0..=5 => {
            let mut t = utf8_text(r, max);
            if nonempty && t.is_empty() {
                t.push('x');
            }
            if nonempty && r.chance(1, 8) {
                t.push('/');
            }
            Str { raw: t.into_bytes(), utf8: true, alt: None }
        }
        6 | 7 => Str { raw: non_ascii_raw(r, max), utf8: false, alt: None },
        _ => {
            let mut t = utf8_text(r, max);
            if t.is_empty() {
                t.push('é');
            }
            let alt = if r.chance(1, 3) { utf8_text(r, max).into_bytes() } else { non_ascii_raw(r, max) };
            Str { raw: t.into_bytes(), utf8: true, alt: Some(alt) }
        }
    }
}

/// ASCII that looks like a ZIP64 end record locator.
pub fn locator_like(r: &mut Rng) -> Vec<u8> {
    let mut v = zipref::Z64LOC.to_le_bytes().to_vec();
    v.extend([0; 4]);
    let at = match r.below(5) {
        0 => 0,
        1 | 2 => r.below(128) as u64,
        3 => (r.below(128) | r.below(32) << 8) as u64,
        _ => r.u64(),
    };
    v.extend((at & 0x7F7F_7F7F_7F7F_7F7F).to_le_bytes());
    v.extend([1, 0, 0, 0]);
    v
}

pub fn level(r: &mut Rng, m: u16) -> Option<i32> {
    if r.chance(1, 2) {
        return None;
    }
    Some(match m {
        14 | 95 => r.range(0, 4) as i32,
        93 => r.range(0, 12) as i32 - 1,
        _ => r.range(0, 9) as i32,
    })
}

pub struct Limits {
    pub entries: usize,
    pub content: usize,
    pub name: usize,
    pub plain_names: bool,
}

pub fn spec(r: &mut Rng, l: &Limits, i: usize) -> Spec {
    let method = any_method(r);
    let call = *r.pick(&[Call::Whole, Call::Whole, Call::Stream, Call::Stream, Call::WholePre, Call::StreamPre]);
    let name = if l.plain_names { Str::text(&format!("file{i}-{}", r.below(1000))) } else { string(r, l.name, true) };
    let comment = if l.plain_names || r.chance(1, 2) { Str::text("") } else { string(r, l.name, false) };
    let chunks = match r.below(4) {
        0 => vec![],
        1 => vec![r.range(1, 50)],
        2 => (0..r.range(1, 5)).map(|_| r.range(0, 5000)).collect(),
        _ => vec![r.range(1, 40000)],
    };
    let (method, call, foreign) = if r.chance(1, 25) {
        // Deflate64 can only be written precompressed.
        (9, *r.pick(&[Call::WholePre, Call::StreamPre]), true)
    } else {
        let f = r.chance(1, 2);
        (method, call, f)
    };
    Spec {
        name,
        comment,
        method,
        level: level(r, method),
        call,
        content: content(r, l.content),
        date: r.u16(),
        time: r.u16(),
        iattr: if r.chance(1, 2) { 0 } else { r.u16() },
        eattr: if r.chance(1, 2) { 0 } else { r.u32() },
        perm: if r.chance(1, 3) { Some(r.u16()) } else { None },
        chunks,
        flush_every: *r.pick(&[0, 0, 0, 1, 3]),
        foreign,
        stale: if r.chance(1, 4) {
            let mut size = || *r.pick(&[0u64, 1, 10, 5000, 0xFFFF_FFFE, 0xFFFF_FFFF, 1 << 32, u64::MAX]);
            let (a, b) = (size(), size());
            Some((r.u32(), a, b))
        } else {
            None
        },
    }
}

pub fn program(r: &mut Rng, l: &Limits) -> Program {
    let n = match r.below(10) {
        0 => 0,
        1..=3 => 1,
        4..=6 => r.range(2, 4),
        _ => r.range(1, l.entries.max(1)),
    };
    let mode = *r.pick(&[Mode::Auto, Mode::Auto, Mode::Forbid, Mode::Force]);
    let comment = match r.below(6) {
        0 | 1 | 2 => None,
        3 => Some(String::new()),
        4 => Some(utf8_text(r, 60)),
        _ => Some(utf8_text(r, 3000)),
    };
    let mut entries: Vec<Spec> = (0..n).map(|i| spec(r, l, i)).collect();
    // The same file twice, or two files which differ in one respect only.
    if n >= 2 && !l.plain_names && r.chance(1, 6) {
        let a = r.below(n - 1);
        let b = r.range(a + 1, n - 1);
        let old = entries[b].clone();
        entries[b] = entries[a].clone();
        match r.below(4) {
            0 => {}
            1 => entries[b].name = old.name,
            2 => entries[b].content = old.content,
            _ => (entries[b].call, entries[b].method, entries[b].foreign) = (old.call, old.method, old.foreign),
        }
    }
    Program { mode, comment, entries }
}

impl Spec {
    pub fn builder(&self) -> ZipEntryBuilder {
        let (y, mo, d, h, mi, s) = dos(self.date, self.time);
        let mut b = ZipEntryBuilder::new(self.name.build(), method(self.method))
            .last_modification_date(ZipDateTimeBuilder::new().year(y).month(mo).day(d).hour(h).minute(mi).second(s).build())
            .internal_file_attribute(self.iattr)
            .external_file_attribute(self.eattr)
            .comment(self.comment.build());
        if let Some(p) = self.perm {
            b = b.unix_permissions(p);
        }
        if let Some(l) = self.level {
            b = b.deflate_option(DeflateOption::Other(l));
        }
        if let Some((crc, c, u)) = self.stale {
            b = b.crc32(crc).compressed_size(c).uncompressed_size(u);
        }
        b
    }

    pub fn eattr_final(&self) -> u32 {
        match self.perm {
            Some(p) => (self.eattr & 0xFFFF) | (p as u32) << 16,
            None => self.eattr,
        }
    }

    /// What the readers have to report, apart from the compressed size.
    pub fn expect(&self, csize: u64) -> EntryView {
        let e = self.eattr_final();
        EntryView {
            name: self.name.clone(),
            comment: self.comment.clone(),
            method: self.method,
            crc: zipref::crc32(&self.content),
            csize,
            usize: self.content.len() as u64,
            date: dos(self.date, self.time),
            iattr: self.iattr,
            eattr: e,
            perm: Some((e >> 16) as u16),
            dir: if self.name.utf8 { Some(self.name.raw.last() == Some(&b'/')) } else { None },
        }
    }

    pub fn describe(&self) -> String {
        format!("{:?} m{} l{:?} {} {}B chunks{:?} flush{}", self.call, self.method, self.level, self.name.short(), self.content.len(), self.chunks, self.flush_every)
    }
}

impl Program {
    pub fn describe(&self) -> String {
        format!("{:?} comment={:?} [{}]", self.mode, self.comment.as_ref().map(|c| c.len()), self.entries.iter().map(|e| e.describe()).collect::<Vec<_>>().join("; "))
    }
    /// Names and comments for which a read-back is guaranteed; see DESIGN.md (C02).
    pub fn total_content(&self) -> usize {
        self.entries.iter().map(|e| e.content.len()).sum()
    }
}

/// Precompressed data of an entry.
pub async fn precompress(s: &Spec) -> Vec<u8> {
    // Where frames end can only be told where the data's end is known.
    if s.foreign && s.method == 93 && s.call == Call::WholePre && s.content.len() < 100_000 {
        return zipref::zstd_frames(&s.content, &mut Rng::new(zipref::crc32(&s.content) as u64));
    }
    if s.foreign || s.method == 0 || s.method == 9 {
        zipref::compress(s.method, &s.content, s.level.unwrap_or(3).clamp(0, 9) as u32)
    } else {
        async_zip::base::write::compress(&s.builder().build(), &s.content).await
    }
}

pub fn chunk_ranges(len: usize, chunks: &[usize]) -> Vec<(usize, usize)> {
    if chunks.is_empty() || chunks.iter().all(|c| *c == 0) {
        return vec![(0, len)];
    }
    let mut v = vec![];
    let (mut o, mut k) = (0, 0);
    while o < len {
        let n = chunks[k % chunks.len()].min(len - o);
        v.push((o, o + n));
        o += n;
        k += 1;
        // keep the number of chunks bounded
        if v.len() > 4000 {
            v.push((o, len));
            break;
        }
    }
    v
}

pub async fn write_one<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, s: &Spec) -> Result<(), ZipError> {
    write_entry(w, s.builder().build(), s).await
}

/// Writes `s` with the given entry description (for copies of entries read elsewhere).
pub async fn write_entry<W: AsyncWrite + Unpin>(w: &mut ZipFileWriter<W>, entry: ZipEntry, s: &Spec) -> Result<(), ZipError> {
    match s.call {
        Call::Whole => w.write_entry_whole(entry, &s.content).await,
        Call::WholePre => {
            let data = precompress(s).await;
            let e = ZipEntryBuilder::from(entry).crc32(zipref::crc32(&s.content)).uncompressed_size(s.content.len() as u64);
            w.write_entry_whole_precompressed(e, &data).await
        }
        Call::Stream => {
            let mut e = w.write_entry_stream(entry).await?;
            feed(&mut e, &s.content, &s.chunks, s.flush_every).await?;
            if s.chunks.len() % 3 == 2 {
                AsyncWriteExt::close(&mut e).await?;
            }
            e.close().await
        }
        Call::StreamPre => {
            let data = precompress(s).await;
            let e = ZipEntryBuilder::from(entry).crc32(zipref::crc32(&s.content)).uncompressed_size(s.content.len() as u64);
            let mut e = w.write_entry_stream_precompressed(e).await?;
            feed(&mut e, &data, &s.chunks, s.flush_every).await?;
            if s.chunks.len() % 3 == 2 {
                AsyncWriteExt::close(&mut e).await?;
            }
            e.close().await
        }
    }
}

/// Writes `data` as several buffers at a time; the writer may take any part of what it is offered.
async fn write_gathered<W: AsyncWrite + Unpin>(w: &mut W, data: &[u8]) -> Result<(), ZipError> {
    let mut rest = data;
    while !rest.is_empty() {
        let (a, b) = (rest.len() / 3, rest.len() / 2);
        let bufs = [IoSlice::new(&rest[..a]), IoSlice::new(&rest[a..b]), IoSlice::new(&[]), IoSlice::new(&rest[b..])];
        let n = w.write_vectored(&bufs).await?;
        if n == 0 || n > rest.len() {
            return Err(std::io::Error::new(std::io::ErrorKind::WriteZero, format!("{n} of {} gathered bytes written", rest.len())).into());
        }
        rest = &rest[n..];
    }
    Ok(())
}

async fn feed<W: AsyncWrite + Unpin>(w: &mut W, data: &[u8], chunks: &[usize], flush_every: usize) -> Result<(), ZipError> {
    for (k, (a, b)) in chunk_ranges(data.len(), chunks).into_iter().enumerate() {
        if k % 5 == 3 && k < 400 {
            write_gathered(w, &data[a..b]).await?;
        } else {
            w.write_all(&data[a..b]).await?;
        }
        if flush_every > 0 && k % flush_every == flush_every - 1 && k < 40 {
            w.flush().await?;
        }
    }
    Ok(())
}

pub fn configure<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, p: &Program) -> ZipFileWriter<W> {
    let mut w = match p.mode {
        Mode::Auto => w,
        Mode::Forbid => w.force_no_zip64(),
        Mode::Force => w.force_zip64(),
    };
    if let Some(c) = &p.comment {
        // The last one counts.
        if c.len() % 2 == 1 {
            w.comment("another comment".into());
        }
        w.comment(c.clone());
    }
    w
}

pub async fn execute<W: AsyncWrite + Unpin>(w: ZipFileWriter<W>, p: &Program) -> Result<W, String> {
    let mut w = configure(w, p);
    let late = p.comment.as_ref().filter(|c| c.len() % 4 >= 2);
    if late.is_some() {
        w.comment("to be replaced".into());
    }
    for (i, s) in p.entries.iter().enumerate() {
        write_one(&mut w, s).await.map_err(|e| format!("writing entry {i} ({}) failed: {e:?}", s.describe()))?;
    }
    if let Some(c) = late {
        w.comment(c.clone());
    }
    w.close().await.map_err(|e| format!("closing failed: {e:?}"))
}

/// Writes the program into memory.
pub fn archive(p: &Program) -> Result<Vec<u8>, String> {
    crate::exec::run(execute(ZipFileWriter::new(Vec::<u8>::new()), p))
}
