//! Strict ZIP reader working from the central directory, cross-checking the
//! local headers, sizes, CRCs and the absence of gaps or trailing bytes.
use crate::{ensure, fail, R};

pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u16,
    pub time: u32,
}

fn u16le(b: &[u8], o: usize) -> usize {
    usize::from(b[o]) | usize::from(b[o + 1]) << 8
}
fn u32le(b: &[u8], o: usize) -> usize {
    u16le(b, o) | u16le(b, o + 2) << 16
}

pub fn read(b: &[u8]) -> R<Vec<Entry>> {
    ensure!(b.len() >= 22, "zip", "file of {} bytes is too short for a ZIP", b.len());
    // The crate under test writes no archive comment: the record is last.
    let e = b.len() - 22;
    ensure!(&b[e..e + 4] == b"PK\x05\x06", "zip", "no end record at the end of the file");
    let n = u16le(b, e + 10);
    ensure!(u16le(b, e + 8) == n && u16le(b, e + 4) == 0, "zip", "multi-disk archive");
    let (cd_size, cd_off) = (u32le(b, e + 12), u32le(b, e + 16));
    ensure!(cd_off + cd_size == e, "zip", "central directory {}+{} does not end at {}", cd_off, cd_size, e);
    let mut out = Vec::new();
    let mut seen = std::collections::HashSet::new();
    let mut p = cd_off;
    let mut next_local = 0usize;
    for _ in 0..n {
        ensure!(p + 46 <= e && &b[p..p + 4] == b"PK\x01\x02", "zip", "bad central header");
        let method = u16le(b, p + 10) as u16;
        let (crc, mut csize, mut usize_) = (u32le(b, p + 16) as u32, u32le(b, p + 20), u32le(b, p + 24));
        let (nl, xl, cl) = (u16le(b, p + 28), u16le(b, p + 30), u16le(b, p + 32));
        let mut off = u32le(b, p + 42);
        let time = u32le(b, p + 12) as u32;
        let name = match std::str::from_utf8(&b[p + 46..p + 46 + nl]) {
            Ok(s) => s.to_string(),
            Err(_) => fail!("zip", "entry name is not UTF-8"),
        };
        // Large file extra: the values whose 32-bit field is all ones, in order.
        let (mut q, end) = (p + 46 + nl, p + 46 + nl + xl);
        while q + 4 <= end {
            let (id, len) = (u16le(b, q), u16le(b, q + 2));
            ensure!(q + 4 + len <= end, "zip", "bad extra field of {}", name);
            if id == 1 {
                let mut v = q + 4;
                for f in [&mut usize_, &mut csize, &mut off] {
                    if *f == 0xFFFF_FFFF {
                        ensure!(v + 8 <= q + 4 + len, "zip", "short large-file field of {}", name);
                        *f = u32le(b, v) | u32le(b, v + 4) << 32;
                        v += 8;
                    }
                }
            }
            q += 4 + len;
        }
        p += 46 + nl + xl + cl;
        ensure!(off == next_local, "zip", "entry {} at {} leaves a gap (expected {})", name, off, next_local);
        ensure!(off + 30 <= cd_off && &b[off..off + 4] == b"PK\x03\x04", "zip", "bad local header of {}", name);
        let (lnl, lxl) = (u16le(b, off + 26), u16le(b, off + 28));
        ensure!(&b[off + 30..off + 30 + lnl] == name.as_bytes(), "zip", "local name of {} differs", name);
        ensure!(u16le(b, off + 8) == usize::from(method), "zip", "local method of {} differs", name);
        let flags = u16le(b, off + 6);
        let d = off + 30 + lnl + lxl;
        ensure!(d + csize <= cd_off, "zip", "data of {} overruns the directory", name);
        next_local = d + csize;
        if flags & 8 != 0 {
            next_local += 16;
        } else {
            ensure!(u32le(b, off + 14) as u32 == crc && (u32le(b, off + 18) == csize || u32le(b, off + 18) == 0xFFFF_FFFF), "zip", "local sizes of {} differ", name);
        }
        let data = match method {
            0 => b[d..d + csize].to_vec(),
            8 => match miniz_oxide::inflate::decompress_to_vec(&b[d..d + csize]) {
                Ok(v) => v,
                Err(x) => fail!("zip", "cannot inflate {}: {}", name, x),
            },
            m => fail!("zip", "method {} of {}", m, name),
        };
        ensure!(data.len() == usize_, "zip", "size of {} is {}, directory says {}", name, data.len(), usize_);
        ensure!(crc32fast::hash(&data) == crc, "zip", "CRC of {} differs", name);
        ensure!(seen.insert(name.to_ascii_lowercase()), "zip", "duplicate entry {}", name);
        out.push(Entry { name, data, method, time });
    }
    ensure!(p == e, "zip", "central directory has {} surplus bytes", e - p);
    ensure!(next_local == cd_off, "zip", "gap before the central directory");
    Ok(out)
}
