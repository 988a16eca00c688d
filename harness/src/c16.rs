//! Text from the meter stays text in every markup.
use crate::c21::framed;
use crate::spec::*;
use m_bus_parser::*;

fn rendered(p: &[u8], format: OutputFormat) -> String {
    let (f, n) = framed(p);
    match render_bytes(&f[..n], format, &RenderOptions::default()) {
        Ok(t) => t,
        Err(_) => {
            verify(false, "rendered");
            String::new()
        }
    }
}
/// a record with a text, and one with a unit given as text
fn payload(header: &[u8], unit: bool, t: &[u8; 3]) -> ([u8; 24], usize) {
    let mut p = [0u8; 24];
    let mut n = 0;
    while n < header.len() {
        p[n] = header[n];
        n += 1;
    }
    let tail: [u8; 8] = if unit { [0x01, 0xFC, 0x3B, 0x03, t[0], t[1], t[2], 0x05] } else { [0x0D, 0x78, 0x03, t[0], t[1], t[2], 0x2F, 0x2F] };
    let mut i = 0;
    while i < 8 {
        p[n] = tail[i];
        n += 1;
        i += 1;
    }
    (p, n)
}
const LONG: [u8; 13] = [0x72, 0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00];

/// the marks that delimit something are those of a harmless text
fn mermaid_is_safe(plain: &str, m: &str) {
    verify(tally(m, "\"") == tally(plain, "\""), "labels end where they should");
    verify(tally(m, "<>") == tally(plain, "<>"), "no tags in labels");
    verify(tally(m, "\n") == tally(plain, "\n"), "one line each");
    verify(entities(m), "no entities");
}
fn xml_is_safe(plain: &str, m: &str) {
    verify(tally(m, "\"") == tally(plain, "\""), "no quotes");
    verify(tally(m, "<>") == tally(plain, "<>"), "no tags");
    verify(tally(m, "\0\x01\x02\x03\x04\x05\x06\x07\x08\x0b\x0c\x0e\x0f\x10\x11\x12\x13\x14\x15\x16\x17\x18\x19\x1a\x1b\x1c\x1d\x1e\x1f") == 0, "no characters XML does not allow");
    verify(entities(m), "no entities");
}
fn mermaid(unit: bool, t: &[u8; 3]) -> String {
    let (p, n) = payload(&[0x78], unit, t);
    rendered(&p[..n], OutputFormat::Mermaid)
}
fn xml(unit: bool, t: &[u8; 3]) -> String {
    let (p, n) = payload(&LONG, unit, t);
    rendered(&p[..n], OutputFormat::Xml)
}
const MARKS: [u8; 12] = [b'&', b'"', b'<', b'>', b'\'', b'\n', b';', b'#', b'a', b'\\', b'`', b']'];
fn marks(k: &[u8; 3]) -> [u8; 3] {
    let mut t = [0; 3];
    let mut i = 0;
    while i < 3 {
        assume(k[i] < 12);
        t[i] = MARKS[split(k[i]) as usize];
        i += 1;
    }
    t
}
fn one(b: u8, at: u8) -> [u8; 3] {
    let b = split(b);
    assume(at < 3);
    let mut t = *b"xyz";
    t[split(at) as usize] = b;
    t
}
pub fn mermaid_text(b: u8, at: u8) {
    exact_text();
    let plain = mermaid(false, b"xyz");
    let t = one(b, at);
    mermaid_is_safe(&plain, &mermaid(false, &t));
    reached("text");
}
pub fn mermaid_unit(b: u8, at: u8) {
    exact_text();
    let plain = mermaid(true, b"xyz");
    let t = one(b, at);
    mermaid_is_safe(&plain, &mermaid(true, &t));
    reached("unit");
}
pub fn mermaid_marks(k: &[u8; 3]) {
    exact_text();
    let plain = mermaid(false, b"xyz");
    let t = marks(k);
    mermaid_is_safe(&plain, &mermaid(false, &t));
    reached("text");
}
pub fn xml_text(b: u8, at: u8) {
    exact_text();
    let plain = xml(false, b"xyz");
    let t = one(b, at);
    xml_is_safe(&plain, &xml(false, &t));
    reached("text");
}
pub fn xml_unit(b: u8, at: u8) {
    exact_text();
    let plain = xml(true, b"xyz");
    let t = one(b, at);
    xml_is_safe(&plain, &xml(true, &t));
    reached("unit");
}
pub fn xml_marks(k: &[u8; 3]) {
    exact_text();
    let plain = xml(false, b"xyz");
    let t = marks(k);
    xml_is_safe(&plain, &xml(false, &t));
    reached("text");
}
/// a header with any manufacturer letter, version, medium and status
fn header(at: u8, b: u8) -> [u8; 13] {
    assume(at < 6);
    let b = split(b);
    let mut h = LONG;
    h[[5, 6, 7, 8, 9, 10][split(at) as usize]] = b;
    h
}
pub fn xml_header(at: u8, b: u8) {
    exact_text();
    let plain = xml(false, b"xyz");
    let (p, n) = payload(&header(at, b), false, b"xyz");
    xml_is_safe(&plain, &rendered(&p[..n], OutputFormat::Xml));
    reached("header");
}
/// the older flowchart
fn older(t: &[u8; 3]) -> String {
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    let (p, n) = payload(&[0x78], false, t);
    let (f, n) = framed(&p[..n]);
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        s.push(HEX[(f[i] >> 4) as usize] as char);
        s.push(HEX[(f[i] & 15) as usize] as char);
        i += 1;
    }
    mbus_data::parse_to_mermaid(&s, None)
}
pub fn older_text(b: u8, at: u8) {
    exact_text();
    let plain = older(b"xyz");
    let t = one(b, at);
    verify(tally(&older(&t), "\"") == tally(&plain, "\""), "labels end where they should");
    reached("text");
}
