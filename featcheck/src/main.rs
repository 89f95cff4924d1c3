//! In the feature configuration this was built with: every method number is accepted exactly when it is compiled in, and
//! what is compiled in can be written and read. Prints one line of counters, or the violation.
use async_zip::base::read::{mem, stream};
use async_zip::base::write::ZipFileWriter;
use async_zip::error::ZipError;
use async_zip::{Compression, ZipEntryBuilder};
use futures_lite::future::block_on;
use futures_lite::io::{AsyncWriteExt, Cursor};

/// The methods of this configuration.
fn compiled() -> Vec<(u16, Compression)> {
    let mut v = vec![(0, Compression::Stored)];
    #[cfg(feature = "deflate")]
    v.push((8, Compression::Deflate));
    #[cfg(feature = "deflate64")]
    v.push((9, Compression::Deflate64));
    #[cfg(feature = "bzip2")]
    v.push((12, Compression::Bz));
    #[cfg(feature = "lzma")]
    v.push((14, Compression::Lzma));
    #[cfg(feature = "zstd")]
    v.push((93, Compression::Zstd));
    #[cfg(feature = "xz")]
    v.push((95, Compression::Xz));
    v.sort_by_key(|x| x.0);
    v
}

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

/// An archive with two entries: a stored one and one with method `m` and the given data.
fn archive(m: u16, data: &[u8], content: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    let mut cd = vec![];
    for (name, m, data, content) in [(b"a", 0u16, &b"first"[..], &b"first"[..]), (b"b", m, data, content)] {
        let off = b.len() as u32;
        let mut common = vec![];
        common.extend(20u16.to_le_bytes());
        common.extend(0u16.to_le_bytes());
        common.extend(m.to_le_bytes());
        common.extend([0, 0, 0x21, 0]);
        common.extend(crc(content).to_le_bytes());
        common.extend((data.len() as u32).to_le_bytes());
        common.extend((content.len() as u32).to_le_bytes());
        common.extend(1u16.to_le_bytes());
        common.extend(0u16.to_le_bytes());
        b.extend(b"PK\x03\x04");
        b.extend(&common);
        b.extend(name);
        b.extend(data);
        cd.extend(b"PK\x01\x02\x14\x03");
        cd.extend(&common);
        cd.extend([0; 10]);
        cd.extend(off.to_le_bytes());
        cd.extend(name);
    }
    let off = b.len() as u32;
    b.extend(&cd);
    b.extend(b"PK\x05\x06\0\0\0\0\x02\0\x02\0");
    b.extend((cd.len() as u32).to_le_bytes());
    b.extend(off.to_le_bytes());
    b.extend([0, 0]);
    b
}

fn check() -> Result<String, String> {
    let have = compiled();
    let mut accepted = 0;
    let mut refused = 0;
    for m in 0..=65535u16 {
        let supported = have.iter().any(|h| h.0 == m);
        let a = archive(m, b"", b"");
        match (block_on(mem::ZipFileReader::new(a.clone())), supported) {
            (Ok(z), true) => {
                let g: u16 = z.file().entries()[1].compression().into();
                if g != m {
                    return Err(format!("method {m} is listed as {g}"));
                }
                accepted += 1;
            }
            (Err(ZipError::CompressionNotSupported(n)), false) if n == m => refused += 1,
            (Ok(_), false) => return Err(format!("random access accepts method {m}, which is not compiled in")),
            (Err(e), true) => return Err(format!("random access refuses method {m}, which is compiled in: {e:?}")),
            (Err(e), false) => return Err(format!("random access refuses method {m} with {e:?}")),
        }
        let r = block_on(async {
            let z = stream::ZipFileReader::new(Cursor::new(a));
            let Some(rd) = z.next_with_entry().await? else { return Ok(false) };
            let z = rd.skip().await?;
            Ok::<_, ZipError>(z.next_with_entry().await?.is_some())
        });
        match (r, supported) {
            (Ok(true), true) => {}
            (Err(ZipError::CompressionNotSupported(n)), false) if n == m => {}
            (r, _) => return Err(format!("forward reading of method {m} (compiled in: {supported}) gives {:?}", r.map(|_| "an entry"))),
        }
    }
    // What is compiled in works.
    let content: Vec<u8> = (0..3000u32).map(|i| (i * i >> 7) as u8).collect();
    let mut round = 0;
    for (m, c) in &have {
        if *m == 9 {
            // Only readable: one stored block.
            let mut d = vec![1];
            d.extend((content.len() as u16).to_le_bytes());
            d.extend((!(content.len() as u16)).to_le_bytes());
            d.extend(&content);
            let z = block_on(mem::ZipFileReader::new(archive(9, &d, &content))).map_err(|e| format!("{e:?}"))?;
            let mut v = vec![];
            block_on(async { z.reader_with_entry(1).await?.read_to_end_checked(&mut v).await }).map_err(|e| format!("method 9: {e:?}"))?;
            if v != content {
                return Err("method 9: wrong content".into());
            }
            round += 1;
            continue;
        }
        let bytes = block_on(async {
            let mut w = ZipFileWriter::new(Vec::<u8>::new());
            w.write_entry_whole(ZipEntryBuilder::new("whole".into(), *c), &content).await?;
            let mut s = w.write_entry_stream(ZipEntryBuilder::new("stream".into(), *c)).await?;
            s.write_all(&content).await?;
            s.close().await?;
            w.close().await
        })
        .map_err(|e| format!("writing method {m}: {e:?}"))?;
        let z = block_on(mem::ZipFileReader::new(bytes)).map_err(|e| format!("{e:?}"))?;
        for i in 0..2 {
            let mut v = vec![];
            block_on(async { z.reader_with_entry(i).await?.read_to_end_checked(&mut v).await }).map_err(|e| format!("reading method {m}: {e:?}"))?;
            let g: u16 = z.file().entries()[i].compression().into();
            if v != content || g != *m {
                return Err(format!("method {m} reads back wrong"));
            }
            round += 1;
        }
    }
    Ok(format!("accepted={accepted} refused={refused} round_trips={round}"))
}

fn main() {
    match check() {
        Ok(s) => println!("OK {s}"),
        Err(e) => {
            println!("BAD {e}");
            std::process::exit(1);
        }
    }
}
