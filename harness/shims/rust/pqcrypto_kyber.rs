//! Stand-in for `pqcrypto-kyber` (kyber768): an ideal key-encapsulation functionality.
mod pqfake;
pub mod kyber768 {
    use super::pqfake::*;
    use pqcrypto_traits::{kem as t, Error, Result};
    pub const PKB: usize = 1184; pub const SKB: usize = 2400; pub const CTB: usize = 1088; pub const SSB: usize = 32;
    pub const fn public_key_bytes() -> usize { PKB }
    pub const fn secret_key_bytes() -> usize { SKB }
    pub const fn ciphertext_bytes() -> usize { CTB }
    pub const fn shared_secret_bytes() -> usize { SSB }
    macro_rules! ty { ($n:ident, $tr:ident, $len:expr, $name:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n([u8; $len]);
        impl t::$tr for $n {
            fn as_bytes(&self) -> &[u8] { &self.0 }
            fn from_bytes(b: &[u8]) -> Result<Self> { if b.len() != $len { Err(Error::BadLength { name: $name, actual: b.len(), expected: $len }) } else { let mut a = [0u8; $len]; a.copy_from_slice(b); Ok($n(a)) } }
        } } }
    ty!(PublicKey, PublicKey, PKB, "PublicKey");
    ty!(SecretKey, SecretKey, SKB, "SecretKey");
    ty!(Ciphertext, Ciphertext, CTB, "Ciphertext");
    ty!(SharedSecret, SharedSecret, SSB, "SharedSecret");
    pub fn keypair() -> (PublicKey, SecretKey) {
        let s = fresh();
        let mut pk = [0u8; PKB]; pk.copy_from_slice(&xof(4, &[&s], PKB));
        let mut sk = [0u8; SKB]; sk.copy_from_slice(&xof(5, &[&s], SKB)); sk[..PKB].copy_from_slice(&pk);
        (PublicKey(pk), SecretKey(sk))
    }
    fn ct_of(pk: &[u8], r: &[u8]) -> [u8; CTB] { let mut c = [0u8; CTB]; c[..32].copy_from_slice(r); c[32..].copy_from_slice(&xof(6, &[pk, r], CTB - 32)); c }
    fn ss(tag: u8, a: &[u8], b: &[u8]) -> SharedSecret { let mut s = [0u8; 32]; s.copy_from_slice(&xof(tag, &[a, b], 32)); SharedSecret(s) }
    pub fn encapsulate(pk: &PublicKey) -> (SharedSecret, Ciphertext) { let r = fresh(); (ss(7, &pk.0, &r), Ciphertext(ct_of(&pk.0, &r))) }
    pub fn decapsulate(ct: &Ciphertext, sk: &SecretKey) -> SharedSecret {
        let pk = &sk.0[..PKB]; let r = &ct.0[..32];
        if ct_of(pk, r) == ct.0 { ss(7, pk, r) } else { ss(8, &sk.0, &ct.0) }
    }
}
