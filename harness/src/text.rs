//! Texts of the specification: arrays of characters, see spec/Text.tla.
use serde_json::Value;

/// Characters of the specification to a string.
pub fn decode(v: &Value) -> String {
    let mut s = String::new();
    match v {
        Value::Array(a) => {
            for c in a {
                let c = c.as_str().unwrap_or_else(|| panic!("harness: bad char {c}"));
                match c.strip_prefix("U+") {
                    Some(h) if !h.is_empty() => s.push(
                        u32::from_str_radix(h, 16)
                            .ok()
                            .and_then(char::from_u32)
                            .unwrap_or_else(|| panic!("harness: bad char {c}")),
                    ),
                    _ => s.push_str(c),
                }
            }
        }
        Value::String(t) => s.push_str(t),
        Value::Null => (),
        v => panic!("harness: bad text {v}"),
    }
    s
}

/// A string to the characters of the specification.
pub fn encode(s: &str) -> Value {
    Value::Array(
        s.chars()
            .map(|c| {
                Value::String(match c {
                    ' '..='~' | '\t' | '\n' | '\r' | '\x0C' => c.to_string(),
                    c => format!("U+{:04X}", c as u32),
                })
            })
            .collect(),
    )
}

/// Malformed bytes in place of the replacement characters: an incomplete
/// character is read as one of them, and is as long as it.
pub fn malformed(s: &str) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    for (i, _) in s.match_indices('\u{FFFD}') {
        b[i..i + 3].copy_from_slice(b"\xF0\x9F\x98");
    }
    b
}

/// Byte offset of the character index.
pub fn offset(s: &str, i: u64) -> u64 {
    s.char_indices().nth(i as usize).map_or(s.len(), |(i, _)| i) as u64
}

/// Character index of the byte offset, `None` if inside a character.
pub fn index(s: &str, b: u64) -> Option<u64> {
    let b = b as usize;
    s.is_char_boundary(b).then(|| s[..b].chars().count() as u64)
}

/// Line, column (byte) and the line of the position, the oracle of the
/// indicated messages.
pub fn message(s: &str, b: u64) -> String {
    let b = (b as usize).min(s.len());
    let start = s.as_bytes()[..b].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
    let end = s.as_bytes()[start..].iter().position(|c| *c == b'\n').map_or(s.len(), |i| i + start);
    let row = s.as_bytes()[..start].iter().filter(|c| **c == b'\n').count() + 1;
    format!("{row}:{}\n{}\n{}^", b - start + 1, &s[start..end], " ".repeat(b - start))
}
