//! Stand-in for the `sha2` crate (not available offline): SHA-256 with the interface the library uses.
//! QRL_SHA_MODE=direct / toy as in the C++ stand-in.
use std::ops::Deref;
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Output(pub [u8; 32]);
impl Output {
    pub fn as_slice(&self) -> &[u8] { &self.0 }
    pub fn to_vec(&self) -> Vec<u8> { self.0.to_vec() }
}
impl Deref for Output { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for Output { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Output> for [u8; 32] { fn from(o: Output) -> Self { o.0 } }
impl From<Output> for Vec<u8> { fn from(o: Output) -> Self { o.0.to_vec() } }
impl IntoIterator for Output { type Item = u8; type IntoIter = std::array::IntoIter<u8, 32>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
pub trait Digest: Sized {
    fn new() -> Self;
    fn update(&mut self, d: impl AsRef<[u8]>);
    fn chain_update(mut self, d: impl AsRef<[u8]>) -> Self { self.update(d); self }
    fn chain(self, d: impl AsRef<[u8]>) -> Self { self.chain_update(d) }
    fn finalize(self) -> Output;
    fn finalize_reset(&mut self) -> Output;
    fn reset(&mut self);
    fn output_size() -> usize { 32 }
    fn digest(d: impl AsRef<[u8]>) -> Output { let mut h = Self::new(); h.update(d); h.finalize() }
}
#[derive(Clone, Default)]
pub struct Sha256 { buf: Vec<u8> }
impl Digest for Sha256 {
    fn new() -> Self { Sha256 { buf: Vec::new() } }
    fn update(&mut self, d: impl AsRef<[u8]>) { self.buf.extend_from_slice(d.as_ref()) }
    fn finalize(self) -> Output { Output(digest(&self.buf)) }
    fn finalize_reset(&mut self) -> Output { let o = Output(digest(&self.buf)); self.buf.clear(); o }
    fn reset(&mut self) { self.buf.clear() }
}
const K: [u32; 64] = [
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2];
fn block(h: &mut [u32; 8], p: &[u8]) {
    let mut w = [0u32; 64];
    for i in 0..16 { w[i] = u32::from_be_bytes([p[4*i], p[4*i+1], p[4*i+2], p[4*i+3]]); }
    for i in 16..64 {
        let (a, b) = (w[i-15], w[i-2]);
        let s0 = a.rotate_right(7) ^ a.rotate_right(18) ^ (a >> 3);
        let s1 = b.rotate_right(17) ^ b.rotate_right(19) ^ (b >> 10);
        w[i] = w[i-16].wrapping_add(s0).wrapping_add(w[i-7]).wrapping_add(s1);
    }
    let mut v = *h;
    for i in 0..64 {
        let (a, b, c, e, f, g) = (v[0], v[1], v[2], v[4], v[5], v[6]);
        let t1 = v[7].wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25)).wrapping_add((e & f) ^ (!e & g)).wrapping_add(K[i]).wrapping_add(w[i]);
        let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22)).wrapping_add((a & b) ^ (a & c) ^ (b & c));
        v = [t1.wrapping_add(t2), a, b, c, v[3].wrapping_add(t1), e, f, g];
    }
    for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
}
fn sha(m: &[u8]) -> [u8; 32] {
    let mut h = [0x6a09e667u32,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19];
    let mut i = 0;
    while i + 64 <= m.len() { block(&mut h, &m[i..i+64]); i += 64; }
    let mut t = [0u8; 128];
    let r = m.len() - i;
    t[..r].copy_from_slice(&m[i..]);
    t[r] = 0x80;
    let tot = if r + 9 <= 64 { 64 } else { 128 };
    t[tot-8..tot].copy_from_slice(&((m.len() as u64) * 8).to_be_bytes());
    block(&mut h, &t[..64]);
    if tot == 128 { block(&mut h, &t[64..128]); }
    let mut o = [0u8; 32];
    for k in 0..8 { o[4*k..4*k+4].copy_from_slice(&h[k].to_be_bytes()); }
    o
}
fn mix(mut x: u64) -> u64 { x ^= x >> 32; x = x.wrapping_mul(0xd6e8feb86659fd93); x ^= x >> 29; x = x.wrapping_mul(0x9fb21c651e98df25); x ^ (x >> 32) }
fn toy(m: &[u8]) -> [u8; 32] {
    let mut s = [0x243f6a8885a308d3u64.wrapping_add(m.len() as u64), 0x13198a2e03707344, 0xa4093822299f31d0, 0x082efa98ec4e6c89];
    let mut i = 0;
    while i + 8 <= m.len() {
        let v = u64::from_le_bytes(m[i..i+8].try_into().unwrap());
        let k = (i >> 3) & 3;
        s[k] = (s[k] ^ v).wrapping_mul(0x9fb21c651e98df25);
        s[(k + 1) & 3] = s[(k + 1) & 3].wrapping_add(s[k] ^ (s[k] >> 29));
        i += 8;
    }
    if i < m.len() { let mut b = [0u8; 8]; b[..m.len()-i].copy_from_slice(&m[i..]); s[0] = (s[0] ^ u64::from_le_bytes(b)).wrapping_mul(0x9fb21c651e98df25); }
    let mut a = mix(s[0] ^ mix(s[1] ^ mix(s[2] ^ mix(s[3]))));
    let mut o = [0u8; 32];
    for k in 0..4 { a = mix(a.wrapping_add(s[k])); o[8*k..8*k+8].copy_from_slice(&a.to_le_bytes()); }
    o
}
fn mode() -> u8 {
    use std::sync::OnceLock;
    static M: OnceLock<u8> = OnceLock::new();
    *M.get_or_init(|| match std::env::var("QRL_SHA_MODE").as_deref() { Ok("direct") => 1, Ok("toy") => 2, _ => 0 })
}
fn digest(m: &[u8]) -> [u8; 32] {
    match mode() {
        2 => toy(m),
        1 => {
            let n = m.len();
            if n >= 176 && m[31] == 2 && m[..31].iter().all(|&x| x == 0) && &m[n-48..n-32] == b"DIRECT-DIGEST-32" {
                return m[n-32..].try_into().unwrap();
            }
            sha(m)
        }
        _ => sha(m),
    }
}
