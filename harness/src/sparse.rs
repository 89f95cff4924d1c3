//! A store for archives of many gigabytes: runs of zeros take no space.
use crate::chaos::{Bytes, Store};
use std::sync::OnceLock;

pub const ZEROS: usize = 20 << 30;

/// A read-only slice of 20 GiB of zeros backed by nothing.
pub fn zeros() -> &'static [u8] {
    static Z: OnceLock<usize> = OnceLock::new();
    let p = *Z.get_or_init(|| {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), ZEROS, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        if p == libc::MAP_FAILED {
            std::panic::panic_any(crate::report::Infra("cannot map the zero region".into()));
        }
        p as usize
    });
    unsafe { std::slice::from_raw_parts(p as *const u8, ZEROS) }
}

enum Seg {
    Zero(u64),
    Data(Vec<u8>),
}

#[derive(Default)]
pub struct Sparse {
    segs: Vec<Seg>,
    starts: Vec<u64>,
    pub len: u64,
}

fn is_zero(b: &[u8]) -> bool {
    let z = zeros().as_ptr() as usize;
    let p = b.as_ptr() as usize;
    if p >= z && p + b.len() <= z + ZEROS {
        return true;
    }
    let (a, m, c) = unsafe { b.align_to::<u128>() };
    a.iter().chain(c).all(|x| *x == 0) && m.iter().all(|x| *x == 0)
}

impl Store for Sparse {
    fn append(&mut self, b: &[u8]) {
        if b.is_empty() {
            return;
        }
        let zero = b.len() >= 1024 && is_zero(b);
        match (self.segs.last_mut(), zero) {
            (Some(Seg::Zero(n)), true) => *n += b.len() as u64,
            (Some(Seg::Data(v)), false) => v.extend_from_slice(b),
            (_, true) => {
                self.starts.push(self.len);
                self.segs.push(Seg::Zero(b.len() as u64));
            }
            (_, false) => {
                self.starts.push(self.len);
                self.segs.push(Seg::Data(b.to_vec()));
            }
        }
        self.len += b.len() as u64;
    }
    fn size(&self) -> u64 {
        self.len
    }
}

impl Bytes for Sparse {
    fn len(&self) -> u64 {
        self.len
    }
    fn fill(&self, off: u64, buf: &mut [u8]) {
        let mut at = 0usize;
        let mut k = self.starts.partition_point(|s| *s <= off) - 1;
        while at < buf.len() {
            let o = off + at as u64 - self.starts[k];
            match &self.segs[k] {
                Seg::Zero(n) => {
                    let m = ((n - o) as usize).min(buf.len() - at);
                    buf[at..at + m].fill(0);
                    at += m;
                }
                Seg::Data(v) => {
                    let m = (v.len() - o as usize).min(buf.len() - at);
                    buf[at..at + m].copy_from_slice(&v[o as usize..o as usize + m]);
                    at += m;
                }
            }
            k += 1;
        }
    }
}

/// The CRC-32 of `n` zero bytes.
pub fn crc_zeros(n: u64) -> u32 {
    // The register after one zero byte is a linear function of the register before.
    fn apply(m: &[u32; 32], v: u32) -> u32 {
        (0..32).filter(|i| v >> i & 1 == 1).fold(0, |a, i| a ^ m[i])
    }
    let mut m = [0u32; 32];
    for (i, x) in m.iter_mut().enumerate() {
        let mut c = 1u32 << i;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
        *x = c;
    }
    let (mut v, mut n) = (0xFFFF_FFFFu32, n);
    while n > 0 {
        if n & 1 == 1 {
            v = apply(&m, v);
        }
        let o = m;
        for x in m.iter_mut() {
            *x = apply(&o, *x);
        }
        n >>= 1;
    }
    !v
}
