//! Structure-aware corruption of archives.
use crate::gen;
use crate::props::c05;
use crate::rng::Rng;
use crate::zipref::{self, Layout, Synth, SynthEntry};

/// A base archive: synthesised, produced by the writer, or noise; with its layout when known.
pub fn base(r: &mut Rng) -> (Vec<u8>, Option<Layout>) {
    match r.below(10) {
        0 => {
            let k = *r.pick(&[0usize, 1, 3, 21, 22, 23, 60, 400]);
            (r.bytes(k), None)
        }
        1 => {
            // only signatures and random bytes
            let mut v = vec![];
            for _ in 0..r.range(1, 20) {
                v.extend(r.pick(&[zipref::LFH, zipref::CDH, zipref::EOCD, zipref::Z64EOCD, zipref::Z64LOC, zipref::DESC]).to_le_bytes());
                let k = r.below(50);
                let z = r.chance(1, 2);
                v.extend(if z { vec![0; k] } else { r.bytes(k) });
            }
            (v, None)
        }
        2 => {
            let l = gen::Limits { entries: 3, content: 300, name: 12, plain_names: false };
            let mut p = gen::program(r, &l);
            for s in &mut p.entries {
                if matches!(s.method, 14 | 95) {
                    s.method = 8;
                }
            }
            match gen::archive(&p) {
                Ok(b) => (b, None),
                Err(_) => (vec![], None),
            }
        }
        3 => {
            // entries carrying Unicode and ZIP64 extra fields
            let mut e = SynthEntry::new(b"x\xff", 0, b"data".to_vec(), 1);
            let mut f = vec![*r.pick(&[0u8, 1, 2])];
            f.extend(zipref::crc32(&e.name).to_le_bytes());
            f.extend("ü".as_bytes());
            e.extra_central = vec![zipref::Extra { id: *r.pick(&[0x7075u16, 0x6375]), data: f.clone() }];
            e.extra_local = vec![zipref::Extra { id: 0x7075, data: f }];
            e.z64_central = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2));
            e.z64_local = r.chance(1, 2);
            e.comment = e.name.clone();
            let s = Synth { entries: vec![e], z64_end: r.chance(1, 2), z64_mask: (true, true, true), ..Default::default() };
            let (b, l) = s.build();
            (b, Some(l))
        }
        _ => {
            let s = c05::conforming(r, 3, 400);
            let (b, l) = s.build();
            (b, Some(l))
        }
    }
}

fn interesting(r: &mut Rng, len: usize) -> u64 {
    match r.below(14) {
        0 => 0,
        1 => 1,
        2 => 0xFF,
        3 => 0xFFFF,
        4 => 0xFFFF_FFFF,
        5 => 0xFFFF_FFFE,
        6 => u64::MAX,
        7 => u64::MAX - r.below(64) as u64,
        8 => 1 << r.below(64),
        9 => (1u64 << r.below(64)).wrapping_sub(1),
        10 => len as u64,
        11 => (len as u64).wrapping_sub(r.below(64) as u64),
        12 => r.below(len.max(1)) as u64,
        _ => r.u64(),
    }
}

/// Offsets at which structures begin, found by signature or known from the layout.
fn anchors(b: &[u8], lay: Option<&Layout>) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    if let Some(l) = lay {
        v.extend(l.local.iter().chain(&l.central).chain(&l.data_end).map(|x| *x as usize));
        v.push(l.eocd as usize);
        if l.z64rec > 0 {
            v.push(l.z64rec as usize);
            v.push(l.eocd as usize - 20);
        }
    } else {
        for i in 0..b.len().saturating_sub(3) {
            if b[i] == b'P' && b[i + 1] == b'K' && matches!((b[i + 2], b[i + 3]), (1, 2) | (3, 4) | (5, 6) | (6, 6) | (6, 7) | (7, 8)) {
                v.push(i);
            }
        }
    }
    v
}

fn put(b: &mut [u8], at: usize, v: u64, n: usize) {
    let x = v.to_le_bytes();
    for (k, c) in x.iter().enumerate().take(n) {
        if let Some(d) = b.get_mut(at + k) {
            *d = *c;
        }
    }
}

/// Applies 1..4 corruptions.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>, lay: Option<&Layout>) {
    let an = anchors(b, lay);
    for _ in 0..*r.pick(&[1usize, 1, 1, 2, 2, 3, 4]) {
        if b.is_empty() {
            let k = r.below(30);
            *b = r.bytes(k);
            continue;
        }
        match r.below(13) {
            // a field of some structure
            0..=5 if !an.is_empty() => {
                let base = *r.pick(&an);
                let off = r.below(58) & if r.chance(2, 3) { !1 } else { !0 };
                let n = *r.pick(&[1usize, 2, 2, 4, 4, 8]);
                let v = match r.below(4) {
                    0 => *r.pick(&an) as u64,
                    _ => interesting(r, b.len()),
                };
                put(b, base + off, v, n);
            }
            6 => {
                let k = r.below(b.len());
                b[k] ^= 1 << r.below(8);
            }
            7 => {
                let k = r.below(b.len());
                let n = r.range(1, 8);
                put(b, k, r.clone().u64(), n);
                r.u64();
            }
            8 => {
                let k = r.below(b.len() + 1);
                b.truncate(k);
            }
            9 => {
                let k = r.below(b.len());
                let n = r.range(1, 40).min(b.len() - k);
                b.drain(k..k + n);
            }
            10 => {
                let k = r.below(b.len() + 1);
                let n = r.range(1, 40);
                let x = if r.chance(1, 2) { vec![0; n] } else { r.bytes(n) };
                b.splice(k..k, x);
            }
            11 => {
                // copy one region over another
                let n = r.range(1, 64).min(b.len());
                let (s, d) = (r.below(b.len() - n + 1), r.below(b.len() - n + 1));
                b.copy_within(s..s + n, d);
            }
            _ => {
                let k = r.below(b.len());
                let t = b[k..].to_vec();
                b.extend(t);
            }
        }
        if b.len() > 200_000 {
            b.truncate(200_000);
        }
    }
}
