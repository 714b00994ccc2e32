//! The parts of base64 0.13 and 0.21 that a program may want.
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Config {
    url: bool,
    pad: bool,
}
pub const STANDARD: Config = Config { url: false, pad: true };
pub const STANDARD_NO_PAD: Config = Config { url: false, pad: false };
pub const URL_SAFE: Config = Config { url: true, pad: true };
pub const URL_SAFE_NO_PAD: Config = Config { url: true, pad: false };

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum DecodeError {
    InvalidByte(usize, u8),
    InvalidLength,
    InvalidLastSymbol(usize, u8),
}
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl std::error::Error for DecodeError {}

fn alphabet(c: Config) -> Vec<u8> {
    let mut a: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').collect();
    a.extend_from_slice(if c.url { b"-_" } else { b"+/" });
    a
}

pub fn encode<T: AsRef<[u8]>>(input: T) -> String {
    encode_config(input, STANDARD)
}

pub fn encode_config<T: AsRef<[u8]>>(input: T, c: Config) -> String {
    let a = alphabet(c);
    let mut out = String::new();
    for ch in input.as_ref().chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..=ch.len() {
            out.push(a[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
        if c.pad {
            for _ in ch.len()..3 {
                out.push('=');
            }
        }
    }
    out
}

pub fn decode<T: AsRef<[u8]>>(input: T) -> Result<Vec<u8>, DecodeError> {
    decode_config(input, STANDARD)
}

pub fn decode_config<T: AsRef<[u8]>>(input: T, c: Config) -> Result<Vec<u8>, DecodeError> {
    let a = alphabet(c);
    let s = input.as_ref();
    let end = s.iter().rposition(|b| *b != b'=').map(|i| i + 1).unwrap_or(0);
    if s.len() - end > 2 || (c.pad && s.len() % 4 != 0) || (!c.pad && s.len() != end) || end % 4 == 1 {
        return Err(DecodeError::InvalidLength);
    }
    let (mut out, mut acc, mut bits) = (vec![], 0u32, 0);
    for (i, b) in s[..end].iter().enumerate() {
        let v = a.iter().position(|x| x == b).ok_or(DecodeError::InvalidByte(i, *b))?;
        acc = (acc << 6 | v as u32) & 0xffff;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
        }
    }
    if acc & ((1 << bits) - 1) != 0 {
        return Err(DecodeError::InvalidLastSymbol(end - 1, s[end - 1]));
    }
    Ok(out)
}

pub mod engine {
    pub struct Engine_(pub(crate) super::Config);
    pub trait Engine {
        fn encode<T: AsRef<[u8]>>(&self, input: T) -> String;
        fn decode<T: AsRef<[u8]>>(&self, input: T) -> Result<Vec<u8>, super::DecodeError>;
    }
    impl Engine for Engine_ {
        fn encode<T: AsRef<[u8]>>(&self, input: T) -> String {
            super::encode_config(input, self.0)
        }
        fn decode<T: AsRef<[u8]>>(&self, input: T) -> Result<Vec<u8>, super::DecodeError> {
            super::decode_config(input, self.0)
        }
    }
    pub mod general_purpose {
        use super::Engine_;
        pub const STANDARD: Engine_ = Engine_(crate::STANDARD);
        pub const STANDARD_NO_PAD: Engine_ = Engine_(crate::STANDARD_NO_PAD);
        pub const URL_SAFE: Engine_ = Engine_(crate::URL_SAFE);
        pub const URL_SAFE_NO_PAD: Engine_ = Engine_(crate::URL_SAFE_NO_PAD);
    }
}
pub mod prelude {
    pub use crate::engine::general_purpose::{STANDARD as BASE64_STANDARD, URL_SAFE as BASE64_URL_SAFE};
    pub use crate::engine::Engine as _;
}
