//! What a user of the library sees of an archive, in comparable form, through each of the readers.
use crate::rng::Rng;
use crate::zipref;
use async_zip::base::read::{mem, seek, stream, WithEntry, WithoutEntry, ZipEntryReader};
use async_zip::error::ZipError;
use async_zip::{StoredZipEntry, StringEncoding, ZipEntry, ZipFile, ZipString};
use futures_lite::io::{AsyncBufRead, AsyncReadExt, AsyncSeek};
use std::io::IoSliceMut;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Str {
    pub raw: Vec<u8>,
    pub utf8: bool,
    pub alt: Option<Vec<u8>>,
}

impl Str {
    pub fn of(s: &ZipString) -> Str {
        Str { raw: s.as_bytes().to_vec(), utf8: matches!(s.encoding(), StringEncoding::Utf8), alt: s.alternative().map(|a| a.to_vec()) }
    }
    pub fn text(s: &str) -> Str {
        Str { raw: s.as_bytes().to_vec(), utf8: true, alt: None }
    }
    pub fn build(&self) -> ZipString {
        match (&self.alt, self.utf8) {
            (Some(a), _) => ZipString::new_with_alternative(String::from_utf8(self.raw.clone()).expect("utf8"), a.clone()),
            (None, true) => ZipString::new(self.raw.clone(), StringEncoding::Utf8),
            (None, false) => ZipString::new(self.raw.clone(), StringEncoding::Raw),
        }
    }
    /// The bytes that go into the name or comment field of the archive.
    pub fn stored(&self) -> &[u8] {
        self.alt.as_deref().unwrap_or(&self.raw)
    }
    pub fn short(&self) -> String {
        let t: String = String::from_utf8_lossy(&self.raw).chars().take(24).collect();
        format!("{:?}{}{}", t, if self.utf8 { "" } else { "(raw)" }, if self.alt.is_some() { "(+alt)" } else { "" })
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EntryView {
    pub name: Str,
    pub comment: Str,
    pub method: u16,
    pub crc: u32,
    pub csize: u64,
    pub usize: u64,
    pub date: (i32, u32, u32, u32, u32, u32),
    pub iattr: u16,
    pub eattr: u32,
    pub perm: Option<u16>,
    pub dir: Option<bool>,
}

pub fn dos(date: u16, time: u16) -> (i32, u32, u32, u32, u32, u32) {
    (
        1980 + (date >> 9) as i32,
        ((date >> 5) & 15) as u32,
        (date & 31) as u32,
        (time >> 11) as u32,
        ((time >> 5) & 63) as u32,
        ((time & 31) * 2) as u32,
    )
}

impl EntryView {
    pub fn of(e: &ZipEntry) -> EntryView {
        let d = e.last_modification_date();
        EntryView {
            name: Str::of(e.filename()),
            comment: Str::of(e.comment()),
            method: e.compression().into(),
            crc: e.crc32(),
            csize: e.compressed_size(),
            usize: e.uncompressed_size(),
            date: (d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second()),
            iattr: e.internal_file_attribute(),
            eattr: e.external_file_attribute(),
            perm: e.unix_permissions(),
            dir: e.dir().ok(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FileView {
    pub entries: Vec<EntryView>,
    pub offsets: Vec<(u64, u64)>,
    pub comment: Str,
    pub zip64: bool,
}

impl FileView {
    pub fn of(f: &ZipFile) -> FileView {
        FileView {
            entries: f.entries().iter().map(|e: &StoredZipEntry| EntryView::of(e)).collect(),
            offsets: f.entries().iter().map(|e| (e.header_offset(), e.header_size())).collect(),
            comment: Str::of(f.comment()),
            zip64: f.zip64(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ArchiveView {
    pub file: FileView,
    pub contents: Vec<Result<Vec<u8>, String>>,
}

pub fn err(e: ZipError) -> String {
    format!("{e:?}")
}

/// How an entry is read.
#[derive(Clone, Copy, Debug)]
pub enum How {
    /// read_to_end without entry data; hash compared by us.
    Plain,
    /// read_to_end_checked.
    Checked,
    /// Reads with buffers of random sizes, then the reported hash is compared with that of the delivered bytes.
    Pieces,
    /// read_to_string_checked when it is UTF-8 (falls back to Checked).
    Text,
}

impl How {
    pub fn random(r: &mut Rng) -> How {
        *r.pick(&[How::Plain, How::Checked, How::Checked, How::Pieces, How::Text])
    }
}

pub fn buf_size(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 1,
        1 => r.range(1, 16),
        2 => r.range(1, 300),
        3 => r.range(1000, 5000),
        4 => 8192,
        _ => r.range(1, 70000),
    }
}

/// Reads to the end in pieces; checks the reported hash against the delivered bytes.
pub async fn pieces<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, r: &mut Rng) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut n = buf_size(r);
    if n < 16 {
        n = n.max(1);
    }
    let mut buf = vec![0xA5u8; n];
    // The hash is that of the bytes so far, however often it is asked for.
    let mut midway = if r.chance(1, 6) { r.range(1, 3000) } else { 0 };
    let asked = if r.chance(1, 4) { 2 } else { 1 };
    let (mut calls, scattered) = (0usize, r.chance(1, 3));
    loop {
        calls += 1;
        let half = buf.len() / 2;
        let got = if scattered && calls % 3 == 2 && half > 0 {
            let (a, b) = buf.split_at_mut(half);
            match rd.read_vectored(&mut [IoSliceMut::new(&mut []), IoSliceMut::new(a), IoSliceMut::new(b)]).await {
                // nothing says that a scattered read fills more than its first empty buffer
                Ok(0) => rd.read(&mut buf).await,
                got => got,
            }
        } else {
            rd.read(&mut buf).await
        };
        let k = match got {
            Ok(k) => k,
            Err(e) => return Err(format!("UpstreamReadError({e:?})")),
        };
        if k > buf.len() {
            return Err(format!("HARNESS: read returned {k} for a buffer of {}", buf.len()));
        }
        if k == 0 {
            break;
        }
        v.extend_from_slice(&buf[..k]);
        if midway > 0 && v.len() >= midway {
            midway = 0;
            let (h, want) = (rd.compute_hash(), zipref::crc32(&v));
            if h != want {
                return Err(format!("HASH: after {} bytes the reader reports {h:#010x}, they hash to {want:#010x}", v.len()));
            }
        }
        // tiny buffers only for a while, to keep large entries affordable
        if v.len() > 3000 && buf.len() < 512 {
            buf.resize(512 + r.below(4096), 0xA5);
        }
    }
    let want = zipref::crc32(&v);
    for time in 0..asked {
        let h = rd.compute_hash();
        if h != want {
            return Err(format!("HASH: reader reports {h:#010x} for bytes hashing to {want:#010x} (asked {} times before)", time));
        }
    }
    Ok(v)
}

pub async fn slurp_without<R: AsyncBufRead + Unpin>(rd: &mut ZipEntryReader<'_, R, WithoutEntry>, r: &mut Rng, how: How) -> Result<Vec<u8>, String> {
    match how {
        How::Pieces => pieces(rd, r).await,
        _ => {
            let mut v = vec![];
            rd.read_to_end(&mut v).await.map_err(|e| format!("UpstreamReadError({e:?})"))?;
            Ok(v)
        }
    }
}

pub async fn slurp_with<R: AsyncBufRead + Unpin>(rd: &mut ZipEntryReader<'_, R, WithEntry<'_>>, r: &mut Rng, how: How, text: bool) -> Result<Vec<u8>, String> {
    match how {
        How::Pieces => pieces(rd, r).await,
        How::Text if text => {
            let mut s = String::new();
            let n = rd.read_to_string_checked(&mut s).await.map_err(err)?;
            if n != s.len() {
                return Err(format!("COUNT: read_to_string_checked reports {n}, delivered {}", s.len()));
            }
            Ok(s.into_bytes())
        }
        How::Plain => {
            let mut v = vec![];
            rd.read_to_end(&mut v).await.map_err(|e| format!("UpstreamReadError({e:?})"))?;
            Ok(v)
        }
        _ => {
            let mut v = vec![];
            let n = rd.read_to_end_checked(&mut v).await.map_err(err)?;
            if n != v.len() {
                return Err(format!("COUNT: read_to_end_checked reports {n}, delivered {}", v.len()));
            }
            Ok(v)
        }
    }
}

/// Chooses per entry how to read it: (with entry data, how, text allowed).
pub type Plan<'a> = &'a mut dyn FnMut(usize) -> (bool, How, bool);

pub async fn seek_view<R: AsyncBufRead + AsyncSeek + Unpin>(src: R, r: &mut Rng, plan: Plan<'_>) -> Result<ArchiveView, ZipError> {
    Ok(seek_view_open(seek::ZipFileReader::new(src).await?, r, plan).await)
}

/// The last entry is sometimes read by turning the reader into one of that entry.
pub async fn seek_view_open<R: AsyncBufRead + AsyncSeek + Unpin>(mut z: seek::ZipFileReader<R>, r: &mut Rng, plan: Plan<'_>) -> ArchiveView {
    let file = FileView::of(z.file());
    let mut contents = vec![];
    let single = r.chance(1, 2);
    for i in 0..file.entries.len() {
        let (with, how, text) = plan(i);
        if single && !text && i + 1 == file.entries.len() {
            let how = if matches!(how, How::Checked | How::Text) { How::Plain } else { how };
            contents.push(match z.into_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => slurp_without(&mut rd, r, how).await,
            });
            break;
        }
        let c = if with {
            match z.reader_with_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => {
                    if EntryView::of(rd.entry()) != file.entries[i] {
                        Err(format!("ENTRY: reader {i} carries other entry data than the listing"))
                    } else {
                        slurp_with(&mut rd, r, how, text).await
                    }
                }
            }
        } else {
            match z.reader_without_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => slurp_without(&mut rd, r, how).await,
            }
        };
        contents.push(c);
    }
    ArchiveView { file, contents }
}

pub async fn mem_view(data: Vec<u8>, r: &mut Rng, plan: Plan<'_>) -> Result<ArchiveView, ZipError> {
    let z = mem::ZipFileReader::new(data).await?;
    let file = FileView::of(z.file());
    let mut contents = vec![];
    for i in 0..file.entries.len() {
        let (with, how, text) = plan(i);
        let c = if with {
            match z.reader_with_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => {
                    if EntryView::of(rd.entry()) != file.entries[i] {
                        Err(format!("ENTRY: reader {i} carries other entry data than the listing"))
                    } else {
                        slurp_with(&mut rd, r, how, text).await
                    }
                }
            }
        } else {
            match z.reader_without_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => slurp_without(&mut rd, r, how).await,
            }
        };
        contents.push(c);
    }
    Ok(ArchiveView { file, contents })
}

/// Needs a tokio runtime.
pub async fn fs_view(path: &std::path::Path, r: &mut Rng, plan: Plan<'_>) -> Result<ArchiveView, ZipError> {
    let z = async_zip::tokio::read::fs::ZipFileReader::new(path).await?;
    let file = FileView::of(z.file());
    let mut contents = vec![];
    for i in 0..file.entries.len() {
        let (with, how, text) = plan(i);
        let c = if with {
            match z.reader_with_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => {
                    if EntryView::of(rd.entry()) != file.entries[i] {
                        Err(format!("ENTRY: reader {i} carries other entry data than the listing"))
                    } else {
                        slurp_with(&mut rd, r, how, text).await
                    }
                }
            }
        } else {
            match z.reader_without_entry(i).await {
                Err(e) => Err(err(e)),
                Ok(mut rd) => slurp_without(&mut rd, r, how).await,
            }
        };
        contents.push(c);
    }
    Ok(ArchiveView { file, contents })
}

/// What the forward-only reader did with one entry.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StreamStep {
    pub entry: Option<EntryView>,
    pub data: Vec<u8>,
    pub complete: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct StreamView {
    pub steps: Vec<StreamStep>,
    /// Ok: clean end. Err: the error that ended it.
    pub end: Result<(), String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Action {
    /// Read everything, then done().
    ReadDone,
    /// Read everything, then skip().
    ReadSkip,
    /// Read some bytes, then skip().
    PartSkip,
    /// skip() at once.
    Skip,
    /// done() at once (only sensible for empty entries).
    Done,
    /// Read some bytes, then done().
    PartDone,
}

/// Steps through a stream; `act(i, entry)` says what to do with entry i and whether to ask for entry data.
pub async fn stream_view<R: AsyncBufRead + Unpin>(src: R, r: &mut Rng, act: &mut dyn FnMut(usize) -> (bool, Action)) -> StreamView {
    stream_view_open(stream::ZipFileReader::new(src), r, act).await
}

pub async fn stream_view_open<R: AsyncBufRead + Unpin>(mut z: stream::ZipFileReader<stream::Ready<R>>, r: &mut Rng, act: &mut dyn FnMut(usize) -> (bool, Action)) -> StreamView {
    let mut steps: Vec<StreamStep> = vec![];
    loop {
        let i = steps.len();
        let (with, a) = act(i);
        if with {
            match z.next_with_entry().await {
                Err(e) => return StreamView { steps, end: Err(err(e)) },
                Ok(None) => return StreamView { steps, end: Ok(()) },
                Ok(Some(mut rd)) => {
                    let ev = EntryView::of(rd.reader().entry());
                    steps.push(StreamStep { entry: Some(ev), data: vec![], complete: false });
                    if let Err(e) = consume(rd.reader_mut(), r, a, steps.last_mut().unwrap()).await {
                        return StreamView { steps, end: Err(e) };
                    }
                    let n = match a {
                        Action::ReadDone | Action::Done | Action::PartDone => rd.done().await,
                        _ => rd.skip().await,
                    };
                    match n {
                        Ok(x) if r.chance(1, 4) => z = stream::ZipFileReader::new(x.into_inner().await),
                        Ok(x) => z = x,
                        Err(e) => return StreamView { steps, end: Err(err(e)) },
                    }
                }
            }
        } else {
            match z.next_without_entry().await {
                Err(e) => return StreamView { steps, end: Err(err(e)) },
                Ok(None) => return StreamView { steps, end: Ok(()) },
                Ok(Some(mut rd)) => {
                    steps.push(StreamStep { entry: None, data: vec![], complete: false });
                    if let Err(e) = consume(rd.reader_mut(), r, a, steps.last_mut().unwrap()).await {
                        return StreamView { steps, end: Err(e) };
                    }
                    let n = match a {
                        Action::ReadDone | Action::Done | Action::PartDone => rd.done().await,
                        _ => rd.skip().await,
                    };
                    match n {
                        Ok(x) if r.chance(1, 4) => z = stream::ZipFileReader::new(x.into_inner().await),
                        Ok(x) => z = x,
                        Err(e) => return StreamView { steps, end: Err(err(e)) },
                    }
                }
            }
        }
    }
}

async fn consume<R: AsyncBufRead + Unpin, E>(rd: &mut ZipEntryReader<'_, R, E>, r: &mut Rng, a: Action, st: &mut StreamStep) -> Result<(), String> {
    let limit = match a {
        Action::ReadDone | Action::ReadSkip => usize::MAX,
        Action::PartSkip | Action::PartDone => match r.below(3) {
            0 => 1,
            1 => r.range(1, 100),
            _ => r.range(1, 20000),
        },
        _ => return Ok(()),
    };
    let mut buf = vec![0x5Au8; buf_size(r)];
    while st.data.len() < limit {
        let m = buf.len().min(limit - st.data.len());
        let k = rd.read(&mut buf[..m]).await.map_err(|e| format!("UpstreamReadError({e:?})"))?;
        if k > m {
            return Err(format!("HARNESS: read returned {k} for a buffer of {m}"));
        }
        if k == 0 {
            st.complete = true;
            break;
        }
        st.data.extend_from_slice(&buf[..k]);
        if st.data.len() > 3000 && buf.len() < 512 {
            buf.resize(512 + r.below(4096), 0xA5);
        }
    }
    if st.complete {
        let h = rd.compute_hash();
        let want = zipref::crc32(&st.data);
        if h != want {
            return Err(format!("HASH: reader reports {h:#010x} for bytes hashing to {want:#010x}"));
        }
    }
    Ok(())
}
