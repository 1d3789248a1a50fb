//! stand-in: percent decoding
use std::borrow::Cow;
pub fn decode(s: &str) -> Result<Cow<'_, str>, std::string::FromUtf8Error> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 {
            if let Ok(v) = u8::from_str_radix(&String::from_utf8_lossy(&b[i + 1..i + 3]), 16) { out.push(v); i += 3; continue; }
        }
        out.push(b[i]);
        i += 1;
    }
    Ok(Cow::Owned(String::from_utf8(out)?))
}
