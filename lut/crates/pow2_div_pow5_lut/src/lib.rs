//! Stand-in for the table crate whose src is missing from /repo: same
//! signature, table regenerated by /verif/lut/gen.py.
static TABLE: &[u8] = include_bytes!(concat!(env!("DST_LUT_DIR"), "/pow2_div_pow5.bin"));

#[inline]
fn word(at: usize) -> u128 {
    let mut w = [0u8; 16];
    w.copy_from_slice(&TABLE[at..at + 16]);
    u128::from_le_bytes(w)
}

pub fn lookup_pow2_div_pow5(idx: usize) -> (u128, u128, u128, u128) {
    let o = idx * 64;
    (word(o + 48), word(o + 32), word(o + 16), word(o))
}
