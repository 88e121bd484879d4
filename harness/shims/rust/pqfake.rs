// Ideal-functionality primitives shared by the two fake crates.
pub fn xof(tag: u8, parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut s: [u64; 4] = [0x9e3779b97f4a7c15 ^ tag as u64, 0xc2b2ae3d27d4eb4f, 0x165667b19e3779f9, 0xd6e8feb86659fd93];
    let mut eat = |x: u64, s: &mut [u64; 4]| { for i in 0..4 { s[i] = (s[i] ^ x.rotate_left(17 * i as u32)).wrapping_mul(0xd6e8feb86659fd93 + 2 * i as u64); s[i] ^= s[i] >> 31; s[(i + 1) & 3] = s[(i + 1) & 3].wrapping_add(s[i]); } };
    for p in parts { eat(p.len() as u64, &mut s); for &b in p.iter() { eat(b as u64 + 256, &mut s); } }
    let mut o = Vec::with_capacity(n);
    let mut c = 0u64;
    while o.len() < n { eat(c ^ 0x5555, &mut s); c += 1; for i in 0..4 { o.extend_from_slice(&s[i].to_le_bytes()); } }
    o.truncate(n);
    o
}
pub fn fresh() -> Vec<u8> {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(1);
    let k = N.fetch_add(1, Ordering::SeqCst);
    let seed: u64 = std::env::var("QRL_PQ_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    xof(9, &[&k.to_le_bytes(), &seed.to_le_bytes()], 32)
}
