//! Stand-in for the table crate whose src is missing from /repo: same
//! signatures, table regenerated by /verif/lut/gen.py.
static TABLE: &[u8] = include_bytes!(concat!(env!("DST_LUT_DIR"), "/pow10_div_pow2.bin"));

pub const CHUNK_SIZE: u32 = 19;
pub const CHUNK_BASE: u64 = 10_000_000_000_000_000_000;
pub const CHUNK_CUTOFF: u32 = 6;
pub const COMPRESSION_RATE: u32 = 32;
pub const SHIFT: i32 = 304;

#[inline]
fn word(at: usize) -> u128 {
    let mut w = [0u8; 16];
    w.copy_from_slice(&TABLE[at..at + 16]);
    u128::from_le_bytes(w)
}

#[inline]
fn half(at: usize) -> u32 {
    let mut w = [0u8; 4];
    w.copy_from_slice(&TABLE[at..at + 4]);
    u32::from_le_bytes(w)
}

pub fn get_pow10_div_pow2_params(exp2: i32) -> (usize, (u32, i32)) {
    let idx = ((-exp2) as usize) / 32 - 7;
    assert!(idx < half(0) as usize);
    (idx, (half(8 + idx * 8), half(12 + idx * 8) as i32))
}

pub fn lookup_pow10_div_pow2(segment_idx: usize, chunk_idx: usize) -> (u128, u128, u128) {
    let n = half(0) as usize;
    let cutoff = half(4) as usize;
    assert!(segment_idx < n && chunk_idx < cutoff);
    let o = 8 + n * 8 + (segment_idx * cutoff + chunk_idx) * 48;
    (word(o + 32), word(o + 16), word(o))
}
