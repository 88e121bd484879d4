//! Stand-in for `pqcrypto-traits`.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error { BadLength { name: &'static str, actual: usize, expected: usize } }
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Error::BadLength { name, actual, expected } => write!(f, "error: {} expected {} bytes, got {}", name, expected, actual) } } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub mod kem {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait Ciphertext { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SharedSecret { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
}
pub mod sign {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SignedMessage { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait DetachedSignature { fn as_bytes(&self) -> &[u8]; fn from_bytes(b: &[u8]) -> Result<Self> where Self: Sized; }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum VerificationError { InvalidSignature, UnknownVerificationError }
    impl std::fmt::Display for VerificationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid signature") } }
    impl std::error::Error for VerificationError {}
}
