//! Stand-in for `md5`: only used to anonymise the host name in metrics, which are off.
#[derive(Debug, Clone, Copy)]
pub struct Digest(pub [u8; 16]);
impl std::fmt::LowerHex for Digest { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "0") } }
pub fn compute<T: AsRef<[u8]>>(_: T) -> Digest { Digest([0; 16]) }
