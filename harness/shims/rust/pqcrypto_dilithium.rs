//! Stand-in for `pqcrypto-dilithium` (dilithium5): an ideal signature functionality.
mod pqfake;
pub mod dilithium5 {
    use super::pqfake::*;
    use pqcrypto_traits::{sign as t, sign::VerificationError, Error, Result};
    pub const PKB: usize = 2592; pub const SKB: usize = 4864; pub const SIGB: usize = 4595;
    pub const fn public_key_bytes() -> usize { PKB }
    pub const fn secret_key_bytes() -> usize { SKB }
    pub const fn signature_bytes() -> usize { SIGB }
    macro_rules! ty { ($n:ident, $tr:ident, $len:expr, $name:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub struct $n([u8; $len]);
        impl t::$tr for $n {
            fn as_bytes(&self) -> &[u8] { &self.0 }
            fn from_bytes(b: &[u8]) -> Result<Self> { if b.len() != $len { Err(Error::BadLength { name: $name, actual: b.len(), expected: $len }) } else { let mut a = [0u8; $len]; a.copy_from_slice(b); Ok($n(a)) } }
        } } }
    ty!(PublicKey, PublicKey, PKB, "PublicKey");
    ty!(SecretKey, SecretKey, SKB, "SecretKey");
    #[derive(Clone, PartialEq, Eq, Debug)] pub struct SignedMessage(Vec<u8>);
    impl t::SignedMessage for SignedMessage { fn as_bytes(&self) -> &[u8] { &self.0 } fn from_bytes(b: &[u8]) -> Result<Self> { Ok(SignedMessage(b.to_vec())) } }
    impl SignedMessage { pub fn len(&self) -> usize { self.0.len() } }
    pub fn keypair() -> (PublicKey, SecretKey) {
        let s = fresh();
        let mut pk = [0u8; PKB]; pk.copy_from_slice(&xof(1, &[&s], PKB));
        let mut sk = [0u8; SKB]; sk.copy_from_slice(&xof(2, &[&s], SKB)); sk[..PKB].copy_from_slice(&pk);
        (PublicKey(pk), SecretKey(sk))
    }
    pub fn sign(m: &[u8], sk: &SecretKey) -> SignedMessage { let mut v = xof(3, &[&sk.0[..PKB], m], SIGB); v.extend_from_slice(m); SignedMessage(v) }
    pub fn open(sm: &SignedMessage, pk: &PublicKey) -> std::result::Result<Vec<u8>, VerificationError> {
        if sm.0.len() < SIGB { return Err(VerificationError::InvalidSignature); }
        let m = &sm.0[SIGB..];
        if xof(3, &[&pk.0, m], SIGB)[..] == sm.0[..SIGB] { Ok(m.to_vec()) } else { Err(VerificationError::InvalidSignature) }
    }
}
