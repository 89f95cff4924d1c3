//! Deflate and Deflate64 written and read from their descriptions, independent of the codec libraries.
use crate::rng::Rng;
use crate::ensure;

/// (base, extra bits) of length symbols 257..=285.
fn lengths(wide: bool) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = (0..8).map(|i| (3 + i, 0)).collect();
    let mut base = 11;
    for e in 1..6 {
        for _ in 0..4 {
            v.push((base, e));
            base += 1 << e;
        }
    }
    v.push(if wide { (3, 16) } else { (258, 0) });
    v
}
/// (base, extra bits) of distance symbols.
fn distances(wide: bool) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = (0..4).map(|i| (1 + i, 0)).collect();
    let mut base = 5;
    for e in 1..=(if wide { 14 } else { 13 }) {
        for _ in 0..2 {
            v.push((base, e));
            base += 1 << e;
        }
    }
    v
}

struct Out {
    v: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Out {
    fn bits(&mut self, x: u64, n: u32) {
        self.acc |= x << self.n;
        self.n += n;
        while self.n >= 8 {
            self.v.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn align(&mut self) {
        if self.n > 0 {
            self.bits(0, 8 - self.n);
        }
    }
}

#[derive(Clone, Copy)]
enum Tok {
    Lit(u8),
    Match(u32, u32),
}

/// Greedy matching with one candidate per hash.
fn tokens(data: &[u8], r: &mut Rng, wide: bool) -> Vec<Tok> {
    let (window, longest) = if wide { (65536, 65538) } else { (32768, 258) };
    let mut head = vec![usize::MAX; 1 << 14];
    let mut v = vec![];
    let mut i = 0;
    let mut quiet = 0;
    while i < data.len() {
        let mut m = None;
        if i + 3 <= data.len() {
            let h = (data[i] as usize | (data[i + 1] as usize) << 8 | (data[i + 2] as usize) << 16).wrapping_mul(2654435761) >> 8 & 0x3FFF;
            let c = head[h];
            if c != usize::MAX && i - c <= window && quiet == 0 {
                let l = data[i..].iter().zip(&data[c..]).take(longest).take_while(|(a, b)| a == b).count();
                if l >= 3 {
                    m = Some((l as u32, (i - c) as u32));
                }
            }
            // Keep some old positions so that far distances come up.
            if c == usize::MAX || i - c > window - 10 || r.chance(1, 3) {
                head[h] = i;
            }
        }
        quiet = if quiet > 0 { quiet - 1 } else { 0 };
        match m {
            Some((l, d)) => {
                v.push(Tok::Match(l, d));
                i += l as usize;
                if r.chance(1, 50) {
                    quiet = r.below(200);
                }
            }
            None => {
                v.push(Tok::Lit(data[i]));
                i += 1;
            }
        }
    }
    v
}

/// Code lengths of a Huffman code for the counts, none above the limit.
fn code_lengths(counts: &[u32], limit: u32) -> Vec<u32> {
    let mut f: Vec<u64> = counts.iter().map(|x| *x as u64).collect();
    if f.iter().filter(|x| **x > 0).count() == 1 {
        return f.iter().map(|x| (*x > 0) as u32).collect();
    }
    loop {
        let mut heap = std::collections::BinaryHeap::new();
        let mut parent: Vec<usize> = vec![usize::MAX; f.len()];
        for (i, x) in f.iter().enumerate() {
            if *x > 0 {
                heap.push(std::cmp::Reverse((*x, i)));
            }
        }
        while heap.len() > 1 {
            let a = heap.pop().unwrap().0;
            let b = heap.pop().unwrap().0;
            let n = parent.len();
            parent.push(usize::MAX);
            parent[a.1] = n;
            parent[b.1] = n;
            heap.push(std::cmp::Reverse((a.0 + b.0, n)));
        }
        let l: Vec<u32> = (0..f.len())
            .map(|i| {
                let (mut k, mut d) = (i, 0);
                while parent[k] != usize::MAX {
                    k = parent[k];
                    d += 1;
                }
                d
            })
            .collect();
        if l.iter().all(|x| *x <= limit) {
            return l;
        }
        for x in f.iter_mut().filter(|x| **x > 0) {
            *x = *x / 2 + 1;
        }
    }
}

/// Canonical codes, bits already reversed for output.
fn codes(l: &[u32]) -> Vec<u64> {
    let mut next = [0u64; 17];
    let mut code = 0;
    for b in 1..=16 {
        code = (code + l.iter().filter(|x| **x == b - 1 && **x > 0).count() as u64) << 1;
        next[b as usize] = code;
    }
    l.iter()
        .map(|&n| {
            if n == 0 {
                return 0;
            }
            let c = next[n as usize];
            next[n as usize] += 1;
            c.reverse_bits() >> (64 - n)
        })
        .collect()
}

fn fixed() -> (Vec<u32>, Vec<u32>) {
    ((0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect(), vec![5; 32])
}

const CL: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn encode(data: &[u8], r: &mut Rng, wide: bool) -> Vec<u8> {
    let (lt, dt) = (lengths(wide), distances(wide));
    let length = |l: u32, r: &mut Rng| -> (usize, u32, u32) {
        let top = lt.len() - 1;
        if l > 258 || (l == 258 && !wide) || (wide && r.chance(1, 8)) {
            return (257 + top, l - lt[top].0, lt[top].1);
        }
        let k = (0..top).rev().find(|&k| lt[k].0 <= l).unwrap();
        (257 + k, l - lt[k].0, lt[k].1)
    };
    let dist = |d: u32| -> (usize, u32, u32) {
        let k = (0..dt.len()).rev().find(|&k| dt[k].0 <= d).unwrap();
        (k, d - dt[k].0, dt[k].1)
    };
    let toks = tokens(data, r, wide);
    let mut o = Out { v: vec![], acc: 0, n: 0 };
    let mut at = 0; // token
    let mut pos = 0; // byte
    loop {
        let n = (*r.pick(&[toks.len(), 3000, 200])).max(1).min(toks.len() - at);
        let part = &toks[at..at + n];
        let bytes: usize = part.iter().map(|t| if let Tok::Match(l, _) = t { *l as usize } else { 1 }).sum();
        let last = at + n == toks.len();
        let kind = if bytes <= 65535 && r.chance(1, 6) { 0 } else { r.range(1, 2) as u64 };
        o.bits(last as u64, 1);
        o.bits(kind, 2);
        if kind == 0 {
            o.align();
            o.v.extend((bytes as u16).to_le_bytes());
            o.v.extend((!(bytes as u16)).to_le_bytes());
            o.v.extend(&data[pos..pos + bytes]);
        } else {
            let mut syms: Vec<(usize, u32, u32, Option<(usize, u32, u32)>)> = vec![];
            for t in part {
                syms.push(match t {
                    Tok::Lit(b) => (*b as usize, 0, 0, None),
                    Tok::Match(l, d) => {
                        let (s, x, e) = length(*l, r);
                        (s, x, e, Some(dist(*d)))
                    }
                });
            }
            syms.push((256, 0, 0, None));
            let (ll, dl) = if kind == 1 {
                fixed()
            } else {
                let mut a = vec![0u32; 286];
                let mut b = vec![0u32; dt.len()];
                for (s, _, _, d) in &syms {
                    a[*s] += 1;
                    if let Some(d) = d {
                        b[d.0] += 1;
                    }
                }
                // At least two codes each, so that every decoder takes them as complete.
                if a.iter().filter(|x| **x > 0).count() < 2 {
                    a[0] += 1;
                }
                b[0] += 1;
                b[1] += 1;
                let (a, b) = (code_lengths(&a, 15), code_lengths(&b, 15));
                let hl = a.iter().rposition(|x| *x > 0).unwrap().max(256) + 1;
                let hd = b.iter().rposition(|x| *x > 0).unwrap() + 1;
                let all: Vec<u32> = a[..hl].iter().chain(&b[..hd]).copied().collect();
                let mut rle: Vec<(usize, u64, u32)> = vec![];
                let mut i = 0;
                while i < all.len() {
                    let run = all[i..].iter().take_while(|x| **x == all[i]).count();
                    if all[i] == 0 && run >= 3 {
                        let k = run.min(138);
                        rle.push(if k < 11 { (17, k as u64 - 3, 3) } else { (18, k as u64 - 11, 7) });
                        i += k;
                    } else {
                        rle.push((all[i] as usize, 0, 0));
                        i += 1;
                        if all[i - 1] > 0 && run >= 4 && r.chance(3, 4) {
                            let k = (run - 1).min(6);
                            rle.push((16, k as u64 - 3, 2));
                            i += k;
                        }
                    }
                }
                let mut c = vec![0u32; 19];
                rle.iter().for_each(|x| c[x.0] += 1);
                if c.iter().filter(|x| **x > 0).count() < 2 {
                    c[0] += 1;
                    c[1] += 1;
                }
                let cl = code_lengths(&c, 7);
                let cc = codes(&cl);
                let hc = (0..19).rposition(|k| cl[CL[k]] > 0).unwrap().max(3) + 1;
                o.bits(hl as u64 - 257, 5);
                o.bits(hd as u64 - 1, 5);
                o.bits(hc as u64 - 4, 4);
                for k in &CL[..hc] {
                    o.bits(cl[*k] as u64, 3);
                }
                for (s, x, n) in rle {
                    o.bits(cc[s], cl[s]);
                    o.bits(x, n);
                }
                (a, b)
            };
            let (lc, dc) = (codes(&ll), codes(&dl));
            for (s, x, e, d) in syms {
                o.bits(lc[s], ll[s]);
                o.bits(x as u64, e);
                if let Some((s, x, e)) = d {
                    o.bits(dc[s], dl[s]);
                    o.bits(x as u64, e);
                }
            }
        }
        at += n;
        pos += bytes;
        if last {
            break;
        }
    }
    o.align();
    o.v
}

struct In<'a> {
    b: &'a [u8],
    at: usize,
    bit: u32,
}
impl In<'_> {
    fn bit(&mut self) -> Result<u32, String> {
        let x = *self.b.get(self.at).ok_or("data end early")?;
        let r = x >> self.bit & 1;
        self.bit += 1;
        if self.bit == 8 {
            self.bit = 0;
            self.at += 1;
        }
        Ok(r as u32)
    }
    fn bits(&mut self, n: u32) -> Result<u32, String> {
        let mut v = 0;
        for i in 0..n {
            v |= self.bit()? << i;
        }
        Ok(v)
    }
}
const OVER: &str = "more codes than their lengths allow";

/// Whether an archive may hold Deflate64 data with an over-subscribed Huffman code, which the deflate64 crate takes
/// and decodes differently depending on how much of the data it has at hand (see known finding of C10).
pub fn invalid_codes(archive: &[u8]) -> bool {
    let u16_at = |i: usize| archive.get(i..i + 2).map_or(0, |b| u16::from_le_bytes([b[0], b[1]]));
    let at = |sig: &[u8]| -> Vec<usize> { archive.windows(4).enumerate().filter(|(_, w)| *w == sig).map(|(i, _)| i).collect() };
    let local = at(b"PK\x03\x04");
    let used = local.iter().any(|i| u16_at(i + 8) == 9) || at(b"PK\x01\x02").iter().any(|i| u16_at(i + 10) == 9);
    used && local.iter().any(|i| {
        let start = i + 30 + u16_at(i + 26) as usize + u16_at(i + 28) as usize;
        start < archive.len() && decode(&archive[start..], true, &mut vec![]).is_err_and(|e| e == OVER)
    })
}

struct Huff {
    count: [u32; 16],
    syms: Vec<u16>,
}
impl Huff {
    fn new(l: &[u32]) -> Result<Huff, String> {
        let mut count = [0; 16];
        l.iter().for_each(|x| count[*x as usize] += 1);
        count[0] = 0;
        let taken: u64 = (1..16).map(|n| (count[n] as u64) << (15 - n)).sum();
        ensure!(taken <= 1 << 15, "{OVER}");
        let mut syms = vec![];
        for n in 1..16 {
            syms.extend((0..l.len()).filter(|i| l[*i] == n).map(|i| i as u16));
        }
        Ok(Huff { count, syms })
    }
    fn get(&self, i: &mut In) -> Result<usize, String> {
        let (mut code, mut first, mut index) = (0i64, 0i64, 0i64);
        for n in 1..16 {
            code |= i.bit()? as i64;
            let c = self.count[n] as i64;
            if code - c < first {
                return Ok(self.syms[(index + code - first) as usize] as usize);
            }
            index += c;
            first = (first + c) << 1;
            code <<= 1;
        }
        Err("no such code".into())
    }
}

/// Decodes; also says how many bytes of the input the data took. On failure gives what came before it.
pub fn decode(b: &[u8], wide: bool, out: &mut Vec<u8>) -> Result<usize, String> {
    let (lt, dt) = (lengths(wide), distances(wide));
    let mut i = In { b, at: 0, bit: 0 };
    loop {
        let last = i.bit()?;
        let kind = i.bits(2)?;
        if kind == 0 {
            if i.bit > 0 {
                i.bit = 0;
                i.at += 1;
            }
            let n = i.bits(16)?;
            ensure!(i.bits(16)? == !n & 0xFFFF, "stored length and its complement");
            let left = b.len().saturating_sub(i.at);
            out.extend(&b[i.at.min(b.len())..][..left.min(n as usize)]);
            ensure!(left >= n as usize, "data end early");
            i.at += n as usize;
        } else {
            ensure!(kind != 3, "block kind 3");
            let (ll, dl) = if kind == 1 {
                fixed()
            } else {
                let (hl, hd, hc) = (i.bits(5)? as usize + 257, i.bits(5)? as usize + 1, i.bits(4)? as usize + 4);
                let mut cl = vec![0; 19];
                for k in &CL[..hc] {
                    cl[*k] = i.bits(3)?;
                }
                let h = Huff::new(&cl)?;
                let mut all: Vec<u32> = vec![];
                while all.len() < hl + hd {
                    match h.get(&mut i)? {
                        16 => {
                            let p = *all.last().ok_or("repeats nothing")?;
                            let k = i.bits(2)? + 3;
                            all.extend((0..k).map(|_| p));
                        }
                        17 => all.extend((0..i.bits(3)? + 3).map(|_| 0)),
                        18 => all.extend((0..i.bits(7)? + 11).map(|_| 0)),
                        n => all.push(n as u32),
                    }
                }
                ensure!(all.len() == hl + hd, "too many code lengths");
                (all[..hl].to_vec(), all[hl..].to_vec())
            };
            let (lh, dh) = (Huff::new(&ll)?, Huff::new(&dl)?);
            loop {
                let s = lh.get(&mut i)?;
                if s < 256 {
                    out.push(s as u8);
                } else if s == 256 {
                    break;
                } else {
                    let (x, e) = *lt.get(s - 257).ok_or("length symbol")?;
                    let n = x + i.bits(e)?;
                    let (x, e) = *dt.get(dh.get(&mut i)?).ok_or("distance symbol")?;
                    let d = (x + i.bits(e)?) as usize;
                    ensure!(d <= out.len(), "distance beyond the start");
                    for _ in 0..n {
                        out.push(out[out.len() - d]);
                    }
                }
            }
        }
        if last == 1 {
            return Ok(i.at + (i.bit > 0) as usize);
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn agree() {
        let mut r = Rng::new(1);
        for n in 0..400 {
            let p = { let k = r.range(1, 3000); r.bytes(k) };
            let len = if n % 20 == 0 { 200_000 } else { r.below(5000) };
            let mut d: Vec<u8> = (0..len).map(|i| p[i % p.len()]).collect();
            for _ in 0..len / 500 {
                let k = r.below(len);
                d[k] ^= 1;
            }
            for wide in [false, true] {
                let c = encode(&d, &mut r, wide);
                let mut v = vec![];
                assert_eq!(decode(&c, wide, &mut v).unwrap(), c.len());
                assert!(v == d);
                if !wide {
                    use std::io::Read;
                    let mut v = vec![];
                    let mut e = c.clone();
                    e.extend(b"PK\x07\x08 and more");
                    let mut dec = flate2::bufread::DeflateDecoder::new(&e[..]);
                    dec.read_to_end(&mut v).unwrap();
                    assert!(v == d);
                    assert_eq!(dec.total_in(), c.len() as u64);
                } 
            }
            let c = crate::zipref::compress(8, &d, 6);
            let mut v = vec![];
            assert_eq!(decode(&c, false, &mut v).unwrap(), c.len());
            assert!(v == d);
        }
    }
}
