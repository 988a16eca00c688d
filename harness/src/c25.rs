//! Numbers are shown with their exact decimal digits.
use crate::spec::*;
use m_bus_parser::*;

fn text(r: &output::RecordOutput) -> &str {
    match &r.value.value {
        Some(v) => v.as_str().unwrap_or(""),
        None => "",
    }
}
/// the digits of v, the lowest first
fn digits(v: u128) -> ([u8; 48], usize) {
    let mut d = [0; 48];
    let mut n = 0;
    let mut v = v;
    while v > 0 {
        d[n] = (v % 10) as u8;
        v /= 10;
        n += 1;
    }
    (d, n)
}
/// whether t is the shortest decimal of v * 10^e
fn is_decimal(t: &[u8], v: i128, e: i32) -> bool {
    if v == 0 {
        return t.len() == 1 && t[0] == b'0';
    }
    let (d, n) = digits(v.unsigned_abs());
    let mut at = 0;
    if v < 0 {
        if t.len() < 1 || t[0] != b'-' {
            return false;
        }
        at = 1;
    }
    // powers of ten, from the highest shown to the lowest shown
    let mut p = n as i32 - 1 + e;
    if p < 0 {
        p = 0;
    }
    let mut low = e;
    let mut k = 0;
    while d[k] == 0 {
        k += 1;
        low += 1;
    }
    if low > 0 {
        low = 0;
    }
    while p >= low {
        if p == -1 {
            if at >= t.len() || t[at] != b'.' {
                return false;
            }
            at += 1;
        }
        let i = p - e;
        let digit = if i >= 0 && (i as usize) < n { d[i as usize] } else { 0 };
        if at >= t.len() || t[at] != b'0' + digit {
            return false;
        }
        at += 1;
        p -= 1;
    }
    at == t.len()
}
/// the record shows v * 10^e
fn shows(data: &[u8], v: i128, e: i32, label: &'static str) {
    match decode_data_records(data) {
        Ok(r) => {
            verify(r.len() == 1, "one record");
            verify(r[0].value.kind == "decimal", "a decimal");
            verify(is_decimal(text(&r[0]).as_bytes(), v, e), label);
            reached(label);
        }
        Err(_) => verify(false, "the record is decoded"),
    }
}
/// little endian two's complement
fn signed(b: &[u8]) -> i128 {
    let mut v = 0i128;
    let mut i = 0;
    while i < b.len() {
        v |= (b[i] as i128) << (8 * i);
        i += 1;
    }
    if b[b.len() - 1] >= 0x80 {
        v -= 1i128 << (8 * b.len());
    }
    v
}
/// packed decimal digits, the lowest pair first
fn packed(b: &[u8]) -> i128 {
    let mut v = 0i128;
    let mut i = b.len();
    while i > 0 {
        i -= 1;
        v = v * 100 + (b[i] >> 4) as i128 * 10 + (b[i] & 15) as i128;
    }
    v
}
/// every byte at every scale of a volume
pub fn byte(b: u8, s: u8) {
    exact_text();
    assume(s < 8);
    let (b, s) = (split(b), split(s));
    shows(&[0x01, 0x10 + s, b], b as i8 as i128, s as i32 - 6, "one byte");
}
const EDGES: [u8; 10] = [0x00, 0x01, 0x09, 0x0A, 0x63, 0x64, 0x7F, 0x80, 0x9C, 0xFF];
fn edge(i: u8) -> u8 {
    assume(i < 10);
    EDGES[split(i) as usize]
}
pub fn word(a: u8, b: u8, s: u8) {
    exact_text();
    assume(s < 8);
    let d = [0x02, 0x10 + split(s), edge(a), edge(b)];
    shows(&d, signed(&d[2..]), d[1] as i32 - 0x16, "two bytes");
}
pub fn three(a: u8, b: u8, c: u8) {
    exact_text();
    let d = [0x03, 0x13, edge(a), edge(b), edge(c)];
    shows(&d, signed(&d[2..]), -3, "three bytes");
}
fn corner(i: u8) -> u8 {
    assume(i < 5);
    [0x00, 0x01, 0x7F, 0x80, 0xFF][split(i) as usize]
}
pub fn four(k: &[u8; 4]) {
    exact_text();
    let d = [0x04, 0x15, corner(k[0]), corner(k[1]), corner(k[2]), corner(k[3])];
    shows(&d, signed(&d[2..]), -1, "four bytes");
}
fn bit(i: u8) -> u8 {
    assume(i < 2);
    [0x00, 0xFF][split(i) as usize]
}
pub fn six(k: &[u8; 6]) {
    exact_text();
    let d = [0x06, 0x16, corner(k[0]), bit(k[1]), bit(k[2]), bit(k[3]), bit(k[4]), corner(k[5])];
    shows(&d, signed(&d[2..]), 0, "six bytes");
}
/// beyond what a binary floating point number holds
pub fn eight(k: &[u8; 8]) {
    exact_text();
    let d = [0x07, 0x10, corner(k[0]), bit(k[1]), bit(k[2]), 0x9C, bit(k[4]), 0x01, bit(k[6]), corner(k[7])];
    shows(&d, signed(&d[2..]), -6, "eight bytes");
}
fn pair(i: u8) -> u8 {
    assume(i < 6);
    [0x00, 0x01, 0x09, 0x10, 0x50, 0x99][split(i) as usize]
}
pub fn bcd2(b: u8, s: u8) {
    exact_text();
    assume(b & 15 < 10 && b < 0xA0);
    assume(s < 8);
    let (b, s) = (split(b), split(s));
    shows(&[0x09, 0x10 + s, b], packed(&[b]), s as i32 - 6, "two digits");
}
pub fn bcd4(k: &[u8; 2]) {
    exact_text();
    let d = [0x0A, 0x13, pair(k[0]), pair(k[1])];
    shows(&d, packed(&d[2..]), -3, "four digits");
}
pub fn bcd6(k: &[u8; 3]) {
    exact_text();
    let d = [0x0B, 0x12, pair(k[0]), pair(k[1]), pair(k[2])];
    shows(&d, packed(&d[2..]), -4, "six digits");
}
fn few(i: u8) -> u8 {
    assume(i < 3);
    [0x00, 0x90, 0x45][split(i) as usize]
}
pub fn bcd8(k: &[u8; 4]) {
    exact_text();
    let d = [0x0C, 0x14, pair(k[0]), few(k[1]), few(k[2]), pair(k[3])];
    shows(&d, packed(&d[2..]), -2, "eight digits");
}
pub fn bcd12(k: &[u8; 6]) {
    exact_text();
    let d = [0x0E, 0x11, few(k[0]), few(k[1]), few(k[2]), few(k[3]), few(k[4]), few(k[5])];
    shows(&d, packed(&d[2..]), -5, "twelve digits");
}
/// integers whose length is sent with them
pub fn variable(k: &[u8; 3], n: u8) {
    exact_text();
    assume(n >= 1 && n <= 10);
    let n = split(n) as usize;
    let mut d = [0u8; 13];
    d[0] = 0x0D;
    d[1] = 0x13;
    d[2] = 0xE0 + n as u8;
    let mut i = 0;
    while i < n {
        d[3 + i] = 0x5A;
        i += 1;
    }
    d[3] = corner(k[0]);
    d[2 + n] = corner(k[1]);
    shows(&d[..3 + n], signed(&d[3..3 + n]), -3, "an integer with its length");
}
/// digits whose length is sent with them, as many as a number can hold
pub fn variable_bcd(k: &[u8; 2], n: u8, sign: u8) {
    exact_text();
    assume(n >= 1 && n <= 7);
    assume(sign < 2);
    let (n, sign) = (split(n) as usize, split(sign));
    let mut d = [0u8; 10];
    d[0] = 0x0D;
    d[1] = 0x13;
    d[2] = (if sign == 1 { 0xD0 } else { 0xC0 }) + n as u8;
    let mut i = 0;
    while i < n {
        d[3 + i] = 0x27;
        i += 1;
    }
    d[3] = pair(k[0]);
    d[2 + n] = pair(k[1]);
    let v = packed(&d[3..3 + n]);
    shows(&d[..3 + n], if sign == 1 { 0 - v } else { v }, -3, "digits with their length");
}
/// more digits than a binary floating point number holds
pub fn long_bcd() {
    exact_text();
    let d = [0x0D, 0x13, 0xC9, 0x12, 0x34, 0x56, 0x78, 0x90, 0x12, 0x34, 0x56, 0x78];
    if let Ok(r) = decode_data_records(&d) {
        verify(text(&r[0]) == "785634129078563.412", "digits with their length");
    }
}
/// the power of ten of a unit and of a correction add up
pub fn scales(vif: u8, fix: u8, v: u8) {
    exact_text();
    assume(vif < 0x18);
    assume(fix < 8);
    assume(v < 4);
    let (vif, fix) = (split(vif), split(fix));
    let v = [0x07, 0x64, 0x88, 0xF6][split(v) as usize];
    let e = if vif < 8 {
        vif as i32 - 3
    } else if vif < 16 {
        vif as i32 - 8
    } else {
        vif as i32 - 0x16
    };
    shows(&[0x01, 0x80 | vif, 0x70 + fix, v], v as i8 as i128, e + fix as i32 - 6, "a corrected scale");
}
/// a correction that adds a power of ten
pub fn offsets(vif: u8, fix: u8, v: u8) {
    exact_text();
    assume(vif < 8);
    assume(fix < 4);
    let (vif, fix) = (split(vif), split(fix));
    let v = edge(v);
    // in units of 10^-6
    let mut sum = v as i8 as i128;
    let mut i = 0;
    while i < vif {
        sum *= 10;
        i += 1;
    }
    let mut one = 1000i128;
    i = 0;
    while i < fix {
        one *= 10;
        i += 1;
    }
    shows(&[0x01, 0x90 | vif, 0x78 + fix, v], sum + one, -6, "an added constant");
}
