//! Minimal stand-in for base64 0.10 (standard alphabet, padded).
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DecodeError { InvalidByte(usize, u8), InvalidLength, InvalidLastSymbol(usize, u8) }
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            DecodeError::InvalidByte(i, b) => write!(f, "Invalid byte {}, offset {}.", b, i),
            DecodeError::InvalidLength => write!(f, "Encoded text cannot have a 6-bit remainder."),
            DecodeError::InvalidLastSymbol(i, b) => write!(f, "Invalid last symbol {}, offset {}.", b, i),
        }
    }
}
impl std::error::Error for DecodeError {}
const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn encode<I: ?Sized + AsRef<[u8]>>(input: &I) -> String {
    let mut out = String::new();
    for c in input.as_ref().chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for k in 0..4 {
            if k <= c.len() { out.push(T[((n >> (18 - 6 * k)) & 63) as usize] as char); } else { out.push('='); }
        }
    }
    out
}
pub fn decode<I: ?Sized + AsRef<[u8]>>(input: &I) -> Result<Vec<u8>, DecodeError> {
    let b = input.as_ref();
    let mut out = Vec::new();
    let mut end = b.len();
    while end > 0 && b[end - 1] == b'=' && b.len() - end < 2 { end -= 1; }
    let (mut acc, mut bits) = (0u32, 0u32);
    for (i, &c) in b[..end].iter().enumerate() {
        let v = T.iter().position(|&t| t == c).ok_or(DecodeError::InvalidByte(i, c))? as u32;
        acc = (acc << 6) | v; bits += 6;
        if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1; }
    }
    if end % 4 == 1 || (end != b.len() && b.len() % 4 != 0) { return Err(DecodeError::InvalidLength); }
    if acc != 0 { return Err(DecodeError::InvalidLastSymbol(end - 1, b[end - 1])); }
    Ok(out)
}
