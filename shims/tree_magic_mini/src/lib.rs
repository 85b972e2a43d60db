//! Stand-in for `tree_magic_mini`.
pub fn from_u8(_: &[u8]) -> &'static str { "application/octet-stream" }
