//! An independent reading and writing of the ZIP format (APPNOTE 6.3.10), used as oracle and to synthesise archives.
//! Nothing here calls async_zip.
use crate::chaos::Bytes;
use crate::{bail, ensure};
use std::io::{Read, Write};

pub const LFH: u32 = 0x04034b50;
pub const CDH: u32 = 0x02014b50;
pub const EOCD: u32 = 0x06054b50;
pub const Z64EOCD: u32 = 0x06064b50;
pub const Z64LOC: u32 = 0x07064b50;
pub const DESC: u32 = 0x08074b50;
pub const M32: u32 = 0xFFFF_FFFF;
pub const M16: u16 = 0xFFFF;

pub const STORED: u16 = 0;
pub const DEFLATE: u16 = 8;
pub const DEFLATE64: u16 = 9;
pub const BZIP2: u16 = 12;
pub const LZMA: u16 = 14;
pub const ZSTD: u16 = 93;
pub const XZ: u16 = 95;

const fn crc_tables() -> [[u32; 256]; 8] {
    let mut t = [[0u32; 256]; 8];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            k += 1;
        }
        t[0][i] = c;
        i += 1;
    }
    let mut j = 1;
    while j < 8 {
        let mut i = 0;
        while i < 256 {
            t[j][i] = (t[j - 1][i] >> 8) ^ t[0][(t[j - 1][i] & 0xFF) as usize];
            i += 1;
        }
        j += 1;
    }
    t
}
static TABLES: [[u32; 256]; 8] = crc_tables();

#[derive(Clone)]
pub struct Crc(u32);
impl Crc {
    pub fn new() -> Crc {
        Crc(0xFFFF_FFFF)
    }
    pub fn update(&mut self, b: &[u8]) {
        let mut c = self.0;
        let mut it = b.chunks_exact(8);
        for x in &mut it {
            let lo = u32::from_le_bytes([x[0], x[1], x[2], x[3]]) ^ c;
            let hi = u32::from_le_bytes([x[4], x[5], x[6], x[7]]);
            c = TABLES[7][(lo & 0xFF) as usize]
                ^ TABLES[6][((lo >> 8) & 0xFF) as usize]
                ^ TABLES[5][((lo >> 16) & 0xFF) as usize]
                ^ TABLES[4][(lo >> 24) as usize]
                ^ TABLES[3][(hi & 0xFF) as usize]
                ^ TABLES[2][((hi >> 8) & 0xFF) as usize]
                ^ TABLES[1][((hi >> 16) & 0xFF) as usize]
                ^ TABLES[0][(hi >> 24) as usize];
        }
        for &x in it.remainder() {
            c = TABLES[0][((c ^ x as u32) & 0xFF) as usize] ^ (c >> 8);
        }
        self.0 = c;
    }
    pub fn finish(&self) -> u32 {
        !self.0
    }
}
/// Four bytes that give `b` followed by them the checksum `target`.
pub fn forge(b: &[u8], target: u32) -> [u8; 4] {
    let mut pre = Crc::new();
    pre.update(b);
    let with = |x: u32| {
        let mut c = pre.clone();
        c.update(&x.to_le_bytes());
        c.finish()
    };
    // The checksum is an affine function of the four bytes.
    let zero = with(0);
    let mut rows: Vec<(u32, u32)> = (0..32).map(|i| (with(1 << i) ^ zero, 1u32 << i)).collect();
    let (mut want, mut x) = (target ^ zero, 0u32);
    for bit in 0..32 {
        let Some(k) = rows.iter().position(|r| r.0 >> bit & 1 == 1) else { continue };
        let (v, m) = rows.swap_remove(k);
        for r in &mut rows {
            if r.0 >> bit & 1 == 1 {
                r.0 ^= v;
                r.1 ^= m;
            }
        }
        if want >> bit & 1 == 1 {
            want ^= v;
            x ^= m;
        }
    }
    x.to_le_bytes()
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = Crc::new();
    c.update(b);
    c.finish()
}

fn u16_at(b: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap())
}
fn u32_at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u64_at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Extra {
    pub id: u16,
    pub data: Vec<u8>,
}

pub fn parse_extra(b: &[u8]) -> Result<Vec<Extra>, String> {
    let mut v = vec![];
    let mut o = 0;
    while o < b.len() {
        ensure!(o + 4 <= b.len(), "extra field header cut off ({} bytes left)", b.len() - o);
        let id = u16_at(b, o);
        let n = u16_at(b, o + 2) as usize;
        ensure!(o + 4 + n <= b.len(), "extra field {id:#06x} declares {n} bytes, {} left", b.len() - o - 4);
        v.push(Extra { id, data: b[o + 4..o + 4 + n].to_vec() });
        o += 4 + n;
    }
    Ok(v)
}
pub fn emit_extra(v: &[Extra]) -> Vec<u8> {
    let mut b = vec![];
    for e in v {
        b.extend(e.id.to_le_bytes());
        b.extend((e.data.len() as u16).to_le_bytes());
        b.extend(&e.data);
    }
    b
}

#[derive(Clone, Debug)]
pub struct Local {
    pub offset: u64,
    pub needed: u16,
    pub flags: u16,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub crc: u32,
    pub csize32: u32,
    pub usize32: u32,
    pub name: Vec<u8>,
    pub extra: Vec<Extra>,
    pub data_off: u64,
}

#[derive(Clone, Debug)]
pub struct Central {
    pub made_by: u16,
    pub needed: u16,
    pub flags: u16,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub crc: u32,
    pub csize32: u32,
    pub usize32: u32,
    pub name: Vec<u8>,
    pub extra: Vec<Extra>,
    pub comment: Vec<u8>,
    pub disk: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub off32: u32,
    /// Resolved through the ZIP64 extra field.
    pub csize: u64,
    pub usize: u64,
    pub off: u64,
    pub record_off: u64,
}

#[derive(Clone, Debug)]
pub struct Z64End {
    pub needed: u16,
    pub rec_off: u64,
    pub n_disk: u64,
    pub n: u64,
    pub cd_size: u64,
    pub cd_off: u64,
}

#[derive(Clone, Debug)]
pub struct Archive {
    pub centrals: Vec<Central>,
    pub locals: Vec<Local>,
    pub cd_off: u64,
    pub cd_size: u64,
    pub eocd_off: u64,
    pub z64: Option<Z64End>,
    pub eocd_n: u16,
    pub eocd_cd_size: u32,
    pub eocd_cd_off: u32,
    pub comment: Vec<u8>,
}

fn need(b: &dyn Bytes, off: u64, n: usize, what: &str) -> Result<Vec<u8>, String> {
    b.get(off, n).ok_or_else(|| format!("{what} at {off} (+{n}) lies beyond the end of the archive ({})", b.len()))
}

pub fn parse_local(b: &dyn Bytes, off: u64) -> Result<Local, String> {
    let h = need(b, off, 30, "local header")?;
    ensure!(u32_at(&h, 0) == LFH, "no local header signature at {off}: {:#010x}", u32_at(&h, 0));
    let (n, x) = (u16_at(&h, 26) as usize, u16_at(&h, 28) as usize);
    let name = need(b, off + 30, n, "local name")?;
    let extra = parse_extra(&need(b, off + 30 + n as u64, x, "local extra")?).map_err(|e| format!("local header at {off}: {e}"))?;
    Ok(Local {
        offset: off,
        needed: u16_at(&h, 4),
        flags: u16_at(&h, 6),
        method: u16_at(&h, 8),
        time: u16_at(&h, 10),
        date: u16_at(&h, 12),
        crc: u32_at(&h, 14),
        csize32: u32_at(&h, 18),
        usize32: u32_at(&h, 22),
        name,
        extra,
        data_off: off + 30 + n as u64 + x as u64,
    })
}

/// Parses one central record strictly; returns it and its length.
pub fn parse_central(b: &dyn Bytes, off: u64) -> Result<(Central, u64), String> {
    let h = need(b, off, 46, "central record")?;
    ensure!(u32_at(&h, 0) == CDH, "no central record signature at {off}: {:#010x}", u32_at(&h, 0));
    let (n, x, c) = (u16_at(&h, 28) as usize, u16_at(&h, 30) as usize, u16_at(&h, 32) as usize);
    let name = need(b, off + 46, n, "central name")?;
    let extra = parse_extra(&need(b, off + 46 + n as u64, x, "central extra")?).map_err(|e| format!("central record at {off}: {e}"))?;
    let comment = need(b, off + 46 + (n + x) as u64, c, "central comment")?;
    let mut r = Central {
        made_by: u16_at(&h, 4),
        needed: u16_at(&h, 6),
        flags: u16_at(&h, 8),
        method: u16_at(&h, 10),
        time: u16_at(&h, 12),
        date: u16_at(&h, 14),
        crc: u32_at(&h, 16),
        csize32: u32_at(&h, 20),
        usize32: u32_at(&h, 24),
        name,
        extra,
        comment,
        disk: u16_at(&h, 34),
        iattr: u16_at(&h, 36),
        eattr: u32_at(&h, 38),
        off32: u32_at(&h, 42),
        csize: u32_at(&h, 20) as u64,
        usize: u32_at(&h, 24) as u64,
        off: u32_at(&h, 42) as u64,
        record_off: off,
    };
    let z: Vec<&Extra> = r.extra.iter().filter(|e| e.id == 1).collect();
    ensure!(z.len() <= 1, "central record at {off} has {} ZIP64 extra fields", z.len());
    if let Some(z) = z.first() {
        let d = z.data.clone();
        let mut o = 0;
        let mut take = |want: bool, what: &str| -> Result<Option<u64>, String> {
            if !want {
                return Ok(None);
            }
            ensure!(o + 8 <= d.len(), "central record at {off}: ZIP64 field of {} bytes lacks the {what}", d.len());
            o += 8;
            Ok(Some(u64_at(&d, o - 8)))
        };
        let us = take(r.usize32 == M32, "uncompressed size")?;
        let cs = take(r.csize32 == M32, "compressed size")?;
        let of = take(r.off32 == M32, "offset")?;
        if r.disk == M16 {
            o += 4;
        }
        ensure!(o == d.len(), "central record at {off}: ZIP64 field has {} bytes, the record calls for {o}", d.len());
        r.usize = us.unwrap_or(r.usize);
        r.csize = cs.unwrap_or(r.csize);
        r.off = of.unwrap_or(r.off);
    }
    Ok((r, 46 + (n + x + c) as u64))
}

/// Reads the end records, the central directory and the local headers. `comment_len` fixes where the end record is.
pub fn parse(b: &dyn Bytes, comment_len: usize) -> Result<Archive, String> {
    let len = b.len();
    ensure!(len >= 22 + comment_len as u64, "archive of {len} bytes is too short");
    let eo = len - 22 - comment_len as u64;
    let h = need(b, eo, 22, "end record")?;
    ensure!(u32_at(&h, 0) == EOCD, "no end record signature at {eo}");
    ensure!(u16_at(&h, 20) as usize == comment_len, "end record declares a comment of {} bytes, {comment_len} expected", u16_at(&h, 20));
    let comment = need(b, eo + 22, comment_len, "comment")?;
    ensure!(u16_at(&h, 4) == 0 && u16_at(&h, 6) == 0, "end record names disks {} and {}", u16_at(&h, 4), u16_at(&h, 6));
    ensure!(u16_at(&h, 8) == u16_at(&h, 10), "end record counts {} entries on this disk and {} in total", u16_at(&h, 8), u16_at(&h, 10));
    let (n16, s32, o32) = (u16_at(&h, 10), u32_at(&h, 12), u32_at(&h, 16));
    let mut z64 = None;
    if eo >= 20 {
        let l = need(b, eo - 20, 20, "ZIP64 locator")?;
        // The end of a comment may look like a locator; then the directory reaches up to the end record.
        if u32_at(&l, 0) == Z64LOC && o32 as u64 + s32 as u64 != eo {
            let ro = u64_at(&l, 8);
            ensure!(u32_at(&l, 4) == 0 && u32_at(&l, 16) == 1, "ZIP64 locator names disk {} of {}", u32_at(&l, 4), u32_at(&l, 16));
            let r = need(b, ro, 56, "ZIP64 end record")?;
            ensure!(u32_at(&r, 0) == Z64EOCD, "no ZIP64 end record signature at {ro}");
            let rs = u64_at(&r, 4);
            ensure!(ro + 12 + rs == eo - 20, "ZIP64 end record at {ro} of size {rs} does not end at its locator ({})", eo - 20);
            ensure!(u32_at(&r, 16) == 0 && u32_at(&r, 20) == 0, "ZIP64 end record names other disks");
            ensure!(u64_at(&r, 24) == u64_at(&r, 32), "ZIP64 end record counts differ");
            z64 = Some(Z64End { needed: u16_at(&r, 14), rec_off: ro, n_disk: u64_at(&r, 24), n: u64_at(&r, 32), cd_size: u64_at(&r, 40), cd_off: u64_at(&r, 48) });
        }
    }
    let (mut n, mut cs, mut co) = (n16 as u64, s32 as u64, o32 as u64);
    if let Some(z) = &z64 {
        ensure!(n16 == M16 || z.n == n, "end records disagree on the number of entries: {n} and {}", z.n);
        ensure!(s32 == M32 || z.cd_size == cs, "end records disagree on the directory size: {cs} and {}", z.cd_size);
        ensure!(o32 == M32 || z.cd_off == co, "end records disagree on the directory offset: {co} and {}", z.cd_off);
        n = z.n;
        cs = z.cd_size;
        co = z.cd_off;
    }
    let end = z64.as_ref().map_or(eo, |z| z.rec_off);
    ensure!(co + cs == end, "directory at {co} of {cs} bytes does not end at the end records ({end})");
    let mut centrals = vec![];
    let mut p = co;
    for i in 0..n {
        let (c, l) = parse_central(b, p).map_err(|e| format!("entry {i}: {e}"))?;
        p += l;
        centrals.push(c);
    }
    ensure!(p == end, "{n} central records end at {p}, the directory at {end}");
    let mut locals = vec![];
    for (i, c) in centrals.iter().enumerate() {
        locals.push(parse_local(b, c.off).map_err(|e| format!("entry {i}: {e}"))?);
    }
    Ok(Archive { centrals, locals, cd_off: co, cd_size: cs, eocd_off: eo, z64, eocd_n: n16, eocd_cd_size: s32, eocd_cd_off: o32, comment })
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum DescForm {
    None,
    /// Signature, CRC, 4-byte sizes.
    Classic,
    /// Signature, CRC, 8-byte sizes.
    Zip64,
    /// Signature, CRC, two 4-byte masks although the local header has a ZIP64 field.
    Masked,
}

/// The version needed to extract each entry covers ZIP64 and does not exceed the one its producer claims to follow.
pub fn check_versions(a: &Archive) -> Result<(), String> {
    for (i, (c, l)) in a.centrals.iter().zip(&a.locals).enumerate() {
        let zip64 = c.extra.iter().chain(&l.extra).any(|x| x.id == 1);
        ensure!(!zip64 || c.needed >= 45, "entry {i}: version needed to extract {} of at least 45 with a ZIP64 field", c.needed);
        ensure!(c.needed <= c.made_by & 0xFF, "entry {i}: version {} needed to extract, made by version {}", c.needed, c.made_by & 0xFF);
    }
    if let Some(z) = &a.z64 {
        ensure!(z.needed >= 45, "version {} needed to extract by the ZIP64 end record", z.needed);
    }
    Ok(())
}

/// Checks that each local header agrees with its central record and with the bytes that follow, and that everything is
/// laid out without gaps from offset 0 to the directory. Returns the descriptor form of each entry.
/// `allow_gaps`: bytes belonging to no listed entry may lie between entries (abandoned entries).
pub fn check_layout(b: &dyn Bytes, a: &Archive, allow_gaps: bool) -> Result<Vec<DescForm>, String> {
    let mut order: Vec<usize> = (0..a.centrals.len()).collect();
    order.sort_by_key(|&i| a.centrals[i].off);
    let mut pos = 0u64;
    let mut forms = vec![DescForm::None; a.centrals.len()];
    for (k, &i) in order.iter().enumerate() {
        let (c, l) = (&a.centrals[i], &a.locals[i]);
        let w = |m: String| -> String { format!("entry {i} ({}): {m}", String::from_utf8_lossy(&c.name).chars().take(40).collect::<String>()) };
        if allow_gaps {
            ensure!(c.off >= pos, "{}", w(format!("overlaps the previous entry ({} < {pos})", c.off)));
        } else {
            ensure!(c.off == pos, "{}", w(format!("starts at {}, the previous entry ends at {pos}", c.off)));
        }
        ensure!(c.name == l.name, "{}", w("local and central names differ".into()));
        ensure!(c.method == l.method, "{}", w(format!("local method {} central {}", l.method, c.method)));
        ensure!(c.flags == l.flags, "{}", w(format!("local flags {:#x} central {:#x}", l.flags, c.flags)));
        ensure!(c.time == l.time && c.date == l.date, "{}", w("local and central timestamps differ".into()));
        ensure!(c.needed == l.needed, "{}", w(format!("local version {} central {}", l.needed, c.needed)));
        ensure!(c.disk == 0, "{}", w(format!("starts on disk {}", c.disk)));
        let data_end = l.data_off.checked_add(c.csize).ok_or_else(|| w("data end overflows".into()))?;
        ensure!(data_end <= a.cd_off, "{}", w(format!("data {}..{data_end} reach into the directory at {}", l.data_off, a.cd_off)));
        let lz: Vec<&Extra> = l.extra.iter().filter(|e| e.id == 1).collect();
        ensure!(lz.len() <= 1, "{}", w("several local ZIP64 fields".into()));
        let lz = lz.first().copied();
        if let Some(z) = lz {
            ensure!(z.data.len() >= 16, "{}", w(format!("local ZIP64 field of {} bytes lacks the sizes", z.data.len())));
            ensure!(l.usize32 == M32 && l.csize32 == M32, "{}", w("local ZIP64 field, but sizes are not masked".into()));
        }
        // Other extra fields agree between the two headers.
        let others = |x: &[Extra]| -> Vec<Extra> { x.iter().filter(|e| e.id != 1).cloned().collect() };
        ensure!(others(&l.extra) == others(&c.extra), "{}", w("local and central extra fields differ".into()));
        let next = if k + 1 < order.len() { a.centrals[order[k + 1]].off } else { a.cd_off };
        if c.flags & 8 == 0 {
            ensure!(l.crc == c.crc, "{}", w(format!("local CRC {:#x} central {:#x}", l.crc, c.crc)));
            let (us, cs) = match lz {
                Some(z) => (u64_at(&z.data, 0), u64_at(&z.data, 8)),
                None => (l.usize32 as u64, l.csize32 as u64),
            };
            ensure!(us == c.usize && cs == c.csize, "{}", w(format!("local sizes {us}/{cs} central {}/{}", c.usize, c.csize)));
            pos = data_end;
        } else {
            // Whatever the local header says about the values in the descriptor must be nothing or right.
            let (us, cs) = match lz {
                Some(z) => (u64_at(&z.data, 0), u64_at(&z.data, 8)),
                None => (l.usize32 as u64, l.csize32 as u64),
            };
            ensure!((us == 0 || us == c.usize) && (cs == 0 || cs == c.csize), "{}", w(format!("local sizes {us}/{cs} of an entry with a descriptor, central {}/{}", c.usize, c.csize)));
            ensure!(l.crc == 0 || l.crc == c.crc, "{}", w(format!("local CRC {:#x} of an entry with a descriptor, central {:#x}", l.crc, c.crc)));
            ensure!(data_end + 16 <= next, "{}", w("no room for the data descriptor".into()));
            let d = need(b, data_end, 16, "descriptor")?;
            ensure!(u32_at(&d, 0) == DESC, "{}", w("no data descriptor signature after the data".into()));
            ensure!(u32_at(&d, 4) == c.crc, "{}", w(format!("descriptor CRC {:#x} central {:#x}", u32_at(&d, 4), c.crc)));
            if lz.is_some() {
                if u32_at(&d, 8) == M32 && u32_at(&d, 12) == M32 {
                    forms[i] = DescForm::Masked;
                    pos = data_end + 16;
                } else {
                    let d = need(b, data_end, 24, "descriptor")?;
                    ensure!(u64_at(&d, 8) == c.csize && u64_at(&d, 16) == c.usize, "{}", w(format!("ZIP64 descriptor sizes {}/{} central {}/{}", u64_at(&d, 8), u64_at(&d, 16), c.csize, c.usize)));
                    forms[i] = DescForm::Zip64;
                    pos = data_end + 24;
                }
            } else {
                ensure!(u32_at(&d, 8) as u64 == c.csize && u32_at(&d, 12) as u64 == c.usize, "{}", w(format!("descriptor sizes {}/{} central {}/{}", u32_at(&d, 8), u32_at(&d, 12), c.csize, c.usize)));
                forms[i] = DescForm::Classic;
                pos = data_end + 16;
            }
        }
        ensure!(pos <= next, "{}", w(format!("ends at {pos}, beyond the next structure at {next}")));
    }
    if !allow_gaps {
        ensure!(pos == a.cd_off, "entries end at {pos}, the directory starts at {}", a.cd_off);
    }
    Ok(forms)
}

/// A deflate stream made of stored blocks only: valid for Deflate and Deflate64 alike.
pub fn deflate_stored(data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut chunks = data.chunks(65535).peekable();
    if chunks.peek().is_none() {
        v.extend([1, 0, 0, 0xFF, 0xFF]);
    }
    while let Some(c) = chunks.next() {
        v.push(if chunks.peek().is_none() { 1 } else { 0 });
        v.extend((c.len() as u16).to_le_bytes());
        v.extend((!(c.len() as u16)).to_le_bytes());
        v.extend(c);
    }
    v
}

/// Compresses with the codec libraries directly.
pub fn compress(method: u16, data: &[u8], level: u32) -> Vec<u8> {
    match method {
        STORED => data.to_vec(),
        // Now and then in blocks no library would choose.
        DEFLATE if level == 9 && crc32(data) % 3 == 0 && data.len() < 1 << 20 => crate::deflate64::encode(data, &mut crate::rng::Rng::new(data.len() as u64), false),
        DEFLATE => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        DEFLATE64 if level == 0 => deflate_stored(data),
        DEFLATE64 => crate::deflate64::encode(data, &mut crate::rng::Rng::new(crc32(data) as u64 + level as u64), true),
        BZIP2 => {
            let mut e = bzip2::write::BzEncoder::new(Vec::new(), bzip2::Compression::new(level.clamp(1, 9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        ZSTD => zstd::stream::encode_all(data, level.clamp(1, 9) as i32).unwrap(),
        XZ => {
            let mut e = liblzma::write::XzEncoder::new(Vec::new(), level.min(3));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        LZMA => {
            let o = liblzma::stream::LzmaOptions::new_preset(level.min(3)).unwrap();
            let s = liblzma::stream::Stream::new_lzma_encoder(&o).unwrap();
            let mut e = liblzma::write::XzEncoder::new_stream(Vec::new(), s);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        m => panic!("method {m}"),
    }
}

/// Zstandard data of several frames, some of them empty or to be skipped (RFC 8878).
pub fn zstd_frames(data: &[u8], r: &mut crate::rng::Rng) -> Vec<u8> {
    let mut v = vec![];
    let mut at = 0;
    loop {
        while r.chance(1, 3) {
            v.extend((0x184D2A50u32 + r.below(16) as u32).to_le_bytes());
            let n = *r.pick(&[0usize, 1, 4, 40, 3000]);
            v.extend((n as u32).to_le_bytes());
            v.extend(r.bytes(n));
        }
        if at == data.len() && !v.is_empty() && r.chance(1, 2) {
            return v;
        }
        let n = if r.chance(1, 4) { data.len() - at } else { r.below(data.len() - at + 1) };
        let level = r.range(1, 4) as i32;
        v.extend(zstd::stream::encode_all(&data[at..at + n], level).unwrap());
        at += n;
    }
}

/// Decompresses with the codec libraries directly; trailing input is an error.
pub fn decompress(method: u16, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let e = |x: std::io::Error| format!("method {method}: {x}");
    match method {
        STORED => v = data.to_vec(),
        DEFLATE => {
            let mut d = flate2::bufread::DeflateDecoder::new(data);
            d.read_to_end(&mut v).map_err(e)?;
            let rest = d.into_inner().len();
            ensure!(rest == 0, "{rest} bytes after the deflate stream");
        }
        DEFLATE64 => {
            let n = crate::deflate64::decode(data, true, &mut v)?;
            ensure!(n == data.len(), "{} bytes after the deflate64 stream", data.len() - n);
        }
        BZIP2 => {
            let mut d = bzip2::bufread::BzDecoder::new(data);
            d.read_to_end(&mut v).map_err(e)?;
            let rest = d.into_inner().len();
            ensure!(rest == 0, "{rest} bytes after the bzip2 stream");
        }
        ZSTD => v = zstd::stream::decode_all(data).map_err(e)?,
        XZ => {
            liblzma::bufread::XzDecoder::new(data).read_to_end(&mut v).map_err(e)?;
        }
        LZMA => {
            let s = liblzma::stream::Stream::new_lzma_decoder(u64::MAX).map_err(|x| format!("{x}"))?;
            liblzma::bufread::XzDecoder::new_stream(data, s).read_to_end(&mut v).map_err(e)?;
        }
        m => bail!("method {m}"),
    }
    Ok(v)
}

/// Data descriptor forms a synthesised entry may use.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Desc {
    None,
    Sig,
    NoSig,
    Sig64,
    NoSig64,
    /// As previous versions of the crate wrote it for ZIP64 entries: two masks of 4 bytes instead of the sizes.
    Masked,
}

#[derive(Clone, Debug)]
pub struct SynthEntry {
    pub name: Vec<u8>,
    pub comment: Vec<u8>,
    pub flags: u16,
    pub method: u16,
    pub time: u16,
    pub date: u16,
    pub made_by: u16,
    pub needed: u16,
    pub iattr: u16,
    pub eattr: u32,
    pub content: Vec<u8>,
    pub cdata: Vec<u8>,
    pub crc: u32,
    pub extra_local: Vec<Extra>,
    pub extra_central: Vec<Extra>,
    pub desc: Desc,
    /// Local header: sizes through a ZIP64 field.
    pub z64_local: bool,
    /// Central record: which of (uncompressed, compressed, offset) go through the ZIP64 field.
    pub z64_central: (bool, bool, bool),
    /// Central record: the disk number goes through the ZIP64 field.
    pub z64_disk: bool,
    /// Where in the central extra fields the ZIP64 field goes.
    pub z64_pos: usize,
    pub gap_before: Vec<u8>,
    /// With a descriptor: store the real values in the local header all the same.
    pub local_values: bool,
    /// Zstandard data of several frames.
    pub framed: bool,
}

impl SynthEntry {
    pub fn new(name: &[u8], method: u16, content: Vec<u8>, level: u32) -> SynthEntry {
        let cdata = compress(method, &content, level);
        SynthEntry {
            name: name.to_vec(),
            comment: vec![],
            flags: 0,
            method,
            time: 0,
            date: 0x21,
            made_by: 0x031e,
            needed: 20,
            iattr: 0,
            eattr: 0,
            crc: crc32(&content),
            content,
            cdata,
            extra_local: vec![],
            extra_central: vec![],
            desc: Desc::None,
            z64_local: false,
            z64_central: (false, false, false),
            z64_disk: false,
            z64_pos: 0,
            gap_before: vec![],
            local_values: false,
            framed: false,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Synth {
    pub entries: Vec<SynthEntry>,
    /// Order of the central directory (indices into entries); empty: physical order.
    pub order: Vec<usize>,
    pub gap_before_cd: Vec<u8>,
    pub comment: Vec<u8>,
    pub z64_end: bool,
    /// With z64_end: mask (count, size, offset) in the classic record.
    pub z64_mask: (bool, bool, bool),
    /// With z64_end: mask the disk numbers in the classic record.
    pub z64_mask_disk: (bool, bool),
    /// With z64_end: the count of entries on this disk is masked when the total is not, and the other way round.
    pub z64_here_differs: bool,
    /// With z64_end: extensible data sector.
    pub z64_ext: Vec<u8>,
    pub z64_version: u16,
}

#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub local: Vec<u64>,
    pub data: Vec<u64>,
    pub data_end: Vec<u64>,
    pub end: Vec<u64>,
    pub cd_off: u64,
    pub cd_size: u64,
    pub central: Vec<u64>,
    pub eocd: u64,
    pub z64rec: u64,
}

fn z64_extra(vals: &[u64]) -> Extra {
    Extra { id: 1, data: vals.iter().flat_map(|v| v.to_le_bytes()).collect() }
}

impl Synth {
    pub fn build(&self) -> (Vec<u8>, Layout) {
        let mut b: Vec<u8> = vec![];
        let mut lay = Layout::default();
        for e in &self.entries {
            b.extend(&e.gap_before);
            lay.local.push(b.len() as u64);
            let dd = e.desc != Desc::None;
            let hide = dd && !e.local_values;
            let flags = e.flags | if dd { 8 } else { 0 };
            let (us, cs) = if hide { (0, 0) } else { (e.content.len() as u64, e.cdata.len() as u64) };
            let mut extra = e.extra_local.clone();
            let (us32, cs32) = if e.z64_local {
                extra.insert(0, z64_extra(&[us, cs]));
                (M32, M32)
            } else {
                (us as u32, cs as u32)
            };
            let x = emit_extra(&extra);
            b.extend(LFH.to_le_bytes());
            b.extend(e.needed.to_le_bytes());
            b.extend(flags.to_le_bytes());
            b.extend(e.method.to_le_bytes());
            b.extend(e.time.to_le_bytes());
            b.extend(e.date.to_le_bytes());
            b.extend((if hide { 0 } else { e.crc }).to_le_bytes());
            b.extend(cs32.to_le_bytes());
            b.extend(us32.to_le_bytes());
            b.extend((e.name.len() as u16).to_le_bytes());
            b.extend((x.len() as u16).to_le_bytes());
            b.extend(&e.name);
            b.extend(&x);
            lay.data.push(b.len() as u64);
            b.extend(&e.cdata);
            lay.data_end.push(b.len() as u64);
            let (u, c) = (e.content.len() as u64, e.cdata.len() as u64);
            match e.desc {
                Desc::None => {}
                Desc::Sig | Desc::NoSig => {
                    if e.desc == Desc::Sig {
                        b.extend(DESC.to_le_bytes());
                    }
                    b.extend(e.crc.to_le_bytes());
                    b.extend((c as u32).to_le_bytes());
                    b.extend((u as u32).to_le_bytes());
                }
                Desc::Sig64 | Desc::NoSig64 => {
                    if e.desc == Desc::Sig64 {
                        b.extend(DESC.to_le_bytes());
                    }
                    b.extend(e.crc.to_le_bytes());
                    b.extend(c.to_le_bytes());
                    b.extend(u.to_le_bytes());
                }
                Desc::Masked => {
                    b.extend(DESC.to_le_bytes());
                    b.extend(e.crc.to_le_bytes());
                    b.extend([0xFF; 8]);
                }
            }
            lay.end.push(b.len() as u64);
        }
        b.extend(&self.gap_before_cd);
        lay.cd_off = b.len() as u64;
        let order: Vec<usize> = if self.order.is_empty() { (0..self.entries.len()).collect() } else { self.order.clone() };
        for &i in &order {
            let e = &self.entries[i];
            lay.central.push(b.len() as u64);
            let flags = e.flags | if e.desc != Desc::None { 8 } else { 0 };
            let (u, c, o) = (e.content.len() as u64, e.cdata.len() as u64, lay.local[i]);
            let mut extra = e.extra_central.clone();
            let mut vals = vec![];
            let (mu, mc, mo) = e.z64_central;
            if mu {
                vals.push(u);
            }
            if mc {
                vals.push(c);
            }
            if mo {
                vals.push(o);
            }
            if !vals.is_empty() || e.z64_disk {
                let mut z = z64_extra(&vals);
                if e.z64_disk {
                    z.data.extend(0u32.to_le_bytes());
                }
                extra.insert(e.z64_pos.min(extra.len()), z);
            }
            let x = emit_extra(&extra);
            b.extend(CDH.to_le_bytes());
            b.extend(e.made_by.to_le_bytes());
            b.extend(e.needed.to_le_bytes());
            b.extend(flags.to_le_bytes());
            b.extend(e.method.to_le_bytes());
            b.extend(e.time.to_le_bytes());
            b.extend(e.date.to_le_bytes());
            b.extend(e.crc.to_le_bytes());
            b.extend((if mc { M32 } else { c as u32 }).to_le_bytes());
            b.extend((if mu { M32 } else { u as u32 }).to_le_bytes());
            b.extend((e.name.len() as u16).to_le_bytes());
            b.extend((x.len() as u16).to_le_bytes());
            b.extend((e.comment.len() as u16).to_le_bytes());
            b.extend((if e.z64_disk { M16 } else { 0 }).to_le_bytes());
            b.extend(e.iattr.to_le_bytes());
            b.extend(e.eattr.to_le_bytes());
            b.extend((if mo { M32 } else { o as u32 }).to_le_bytes());
            b.extend(&e.name);
            b.extend(&x);
            b.extend(&e.comment);
        }
        lay.cd_size = b.len() as u64 - lay.cd_off;
        let n = order.len() as u64;
        let (mut mn, mut ms, mut mo) = (false, false, false);
        if self.z64_end {
            (mn, ms, mo) = self.z64_mask;
            lay.z64rec = b.len() as u64;
            b.extend(Z64EOCD.to_le_bytes());
            b.extend((44 + self.z64_ext.len() as u64).to_le_bytes());
            b.extend(0x031eu16.to_le_bytes());
            b.extend(45u16.to_le_bytes());
            b.extend(0u32.to_le_bytes());
            b.extend(0u32.to_le_bytes());
            b.extend(n.to_le_bytes());
            b.extend(n.to_le_bytes());
            b.extend(lay.cd_size.to_le_bytes());
            b.extend(lay.cd_off.to_le_bytes());
            b.extend(&self.z64_ext);
            b.extend(Z64LOC.to_le_bytes());
            b.extend(0u32.to_le_bytes());
            b.extend(lay.z64rec.to_le_bytes());
            b.extend(1u32.to_le_bytes());
        }
        lay.eocd = b.len() as u64;
        b.extend(EOCD.to_le_bytes());
        let (this, start) = if self.z64_end { self.z64_mask_disk } else { (false, false) };
        b.extend((if this { M16 } else { 0 }).to_le_bytes());
        b.extend((if start { M16 } else { 0 }).to_le_bytes());
        let here = mn ^ (self.z64_end && self.z64_here_differs);
        b.extend((if here { M16 } else { n as u16 }).to_le_bytes());
        b.extend((if mn { M16 } else { n as u16 }).to_le_bytes());
        b.extend((if ms { M32 } else { lay.cd_size as u32 }).to_le_bytes());
        b.extend((if mo { M32 } else { lay.cd_off as u32 }).to_le_bytes());
        b.extend((self.comment.len() as u16).to_le_bytes());
        b.extend(&self.comment);
        (b, lay)
    }
}

/// Decodes as much as the (unfinished) data allow.
pub fn decompress_prefix(method: u16, data: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut go = |mut d: Box<dyn Read + '_>| {
        let mut b = [0u8; 4096];
        while let Ok(n) = d.read(&mut b) {
            if n == 0 {
                break;
            }
            v.extend_from_slice(&b[..n]);
        }
    };
    match method {
        STORED => v = data.to_vec(),
        DEFLATE => go(Box::new(flate2::bufread::DeflateDecoder::new(data))),
        DEFLATE64 => drop(crate::deflate64::decode(data, true, &mut v)),
        BZIP2 => go(Box::new(bzip2::bufread::BzDecoder::new(data))),
        ZSTD => {
            if let Ok(d) = zstd::stream::read::Decoder::new(data) {
                go(Box::new(d))
            }
        }
        XZ => go(Box::new(liblzma::bufread::XzDecoder::new(data))),
        m => panic!("method {m}"),
    }
    v
}
