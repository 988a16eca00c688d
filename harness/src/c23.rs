//! Raw bytes are echoed exactly; hexadecimal input is read exactly.
use crate::c13::{no_trailer, number, options, radio, wire};
use crate::spec::*;
use m_bus_parser::*;

const HEX: [u8; 16] = *b"0123456789ABCDEF";

/// upper-case hexadecimal of exactly these bytes
fn echo(text: &str, data: &[u8], label: &'static str) {
    let t = text.as_bytes();
    verify(t.len() == 2 * data.len(), label);
    let mut i = 0;
    while i < data.len() {
        let (a, b) = (t[2 * i], t[2 * i + 1]);
        verify(a == HEX[(data[i] >> 4) as usize] && b == HEX[(data[i] & 15) as usize], label);
        i += 1;
    }
}
pub fn long(data: &[u8; 25]) {
    exact_text();
    wire(data);
    assume(data[6] == 0x72);
    number(&data[7..11]);
    assume(data[14] == 0);
    assume(data[18] & 31 == 0);
    assume(data[19] == 0x0F);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("long");
        verify(d.raw.byte_length == 25, "number of bytes");
        echo(&d.raw.original_frame_hex, data, "the frame");
    }
}
fn payload(text: &Option<String>, data: &[u8]) {
    match text {
        Some(t) => echo(t, data, "the payload"),
        None => verify(false, "the payload is echoed"),
    }
}
pub fn long_payload(data: &[u8; 25]) {
    exact_text();
    wire(data);
    assume(data[6] == 0x72);
    number(&data[7..11]);
    assume(data[14] == 0);
    assume(data[18] & 31 == 0);
    assume(data[19] == 0x0F);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("payload");
        payload(&d.raw.payload_hex, &data[6..23]);
        verify(d.records.len() == 1, "one record");
        verify(d.records[0].header_hex == "0F", "its header");
        spaced(&d.records[0].data_hex, &data[20..23], "its data");
    }
}
pub fn short(data: &[u8; 5]) {
    exact_text();
    assume(data[0] == 0x10 && data[4] == 0x16);
    assume(data[1] == 0x5B);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("short");
        verify(d.raw.byte_length == 5, "number of bytes");
        echo(&d.raw.original_frame_hex, data, "the frame");
        echo(&d.raw.normalized_frame_hex, data, "the frame");
        verify(d.raw.payload_hex.is_none(), "no payload");
        verify(!d.raw.format_a_crc_stripped, "nothing is stripped");
    }
}
pub fn single() {
    exact_text();
    if let Ok(d) = decode_bytes(&[0xE5], &options(None)) {
        reached("single");
        verify(d.raw.original_frame_hex == "E5" && d.raw.byte_length == 1, "the frame");
    }
}
pub fn control(data: &[u8; 9]) {
    exact_text();
    assume(data[0] == 0x68 && data[1] == 3 && data[2] == 3 && data[3] == 0x68 && data[8] == 0x16);
    assume(data[4] == 0x53);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("control");
        echo(&d.raw.original_frame_hex, data, "the frame");
        payload(&d.raw.payload_hex, &data[6..7]);
    }
}
pub fn wireless(data: &[u8; 24]) {
    exact_text();
    radio(data);
    no_trailer(data);
    assume(data[10] == 0x7A);
    assume(data[14] & 31 == 0);
    assume(data[15] == 0x0F);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("radio");
        verify(d.raw.byte_length == 24, "number of bytes");
        echo(&d.raw.original_frame_hex, data, "the frame");
        echo(&d.raw.normalized_frame_hex, data, "the frame");
        payload(&d.raw.payload_hex, &data[10..]);
        verify(!d.raw.format_a_crc_stripped, "nothing is stripped");
    }
}
/// a frame with checksums in every block, echoed with them and without them
pub fn blocks() {
    exact_text();
    let f = [
        0x16, 0x44, 0x93, 0x15, 0x78, 0x56, 0x34, 0x12, 0x33, 0x03, 0xEC, 0x5A, 0x7A, 0x2A, 0, 0, 0, 0x01, 0x13, 0x05, 0x0B, 0x13, 0x56, 0x34, 0x12, 0xE4, 0x58,
    ];
    match decode_bytes(&f, &options(None)) {
        Ok(d) => {
            reached("blocks");
            verify(d.raw.byte_length == 27, "number of bytes");
            verify(d.raw.original_frame_hex == "16449315785634123303EC5A7A2A0000000113050B13563412E458", "the frame");
            verify(d.raw.normalized_frame_hex == "164493157856341233037A2A0000000113050B13563412", "the frame without checksums");
            verify(d.raw.format_a_crc_stripped, "checksums are stripped");
            verify(d.records.len() == 2, "two records");
            verify(d.records[0].header_hex == "01 13" && d.records[0].data_hex == "05", "the first record");
            verify(d.records[1].header_hex == "0B 13" && d.records[1].data_hex == "56 34 12", "the second record");
        }
        Err(_) => verify(false, "the frame is decoded"),
    }
}
/// bytes separated by spaces
fn spaced(text: &str, data: &[u8], label: &'static str) {
    let t = text.as_bytes();
    verify(t.len() + 1 == 3 * data.len(), label);
    let mut i = 0;
    while i < data.len() {
        verify(t[3 * i] == HEX[(data[i] >> 4) as usize] && t[3 * i + 1] == HEX[(data[i] & 15) as usize], label);
        verify(i == 0 || t[3 * i - 1] == b' ', label);
        i += 1;
    }
}
/// a record of every fixed width
pub fn record(data: &[u8; 12]) {
    exact_text();
    assume(data[0] < 0x40 && data[0] & 15 < 13);
    let dif = split(data[0]) & 15;
    let mut n = if dif == 5 || dif == 12 { 4 } else { dif as usize };
    if dif == 7 {
        n = 8;
    }
    if dif == 8 {
        n = 0;
    }
    if dif > 8 && dif < 12 {
        n = (dif - 8) as usize;
    }
    assume(data[1] == 0x13);
    let data = &data[..n + 2];
    if let Ok(r) = user_data::DataRecord::try_from(data) {
        reached("record");
        spaced(&r.data_record_header_hex(), &data[..2], "header of a record");
        if n > 0 {
            reached("record with data");
            spaced(&r.data_hex(), &data[2..2 + n], "data of a record");
        } else {
            verify(r.data_hex().is_empty(), "data of a record");
        }
    }
}
/// kinds of characters in hexadecimal input
const ZERO: u8 = 0;
const DIGIT: u8 = 1;
const UPPER: u8 = 2;
const LOWER: u8 = 3;
const SPACE: u8 = 4;
const MARK: u8 = 5;
const CROSS: u8 = 6;
fn kind(k: u8, c: u8) {
    if k == ZERO {
        assume(c == b'0');
    } else if k == DIGIT {
        assume(c >= b'1' && c <= b'9');
    } else if k == UPPER {
        assume(c >= b'A' && c <= b'F');
    } else if k == LOWER {
        assume(c >= b'a' && c <= b'f');
    } else if k == SPACE {
        assume(c == b' ');
    } else if k == MARK {
        assume(c == b':');
    } else if k == CROSS {
        assume(c == b'x');
    } else {
        assume(c > b'f' && c < b'x');
    }
}
fn nibble(k: u8, c: u8) -> u8 {
    if k == UPPER {
        c - b'A' + 10
    } else if k == LOWER {
        c - b'a' + 10
    } else {
        c - b'0'
    }
}
fn is_hex(k: u8) -> bool {
    k <= LOWER
}
/// what the text of these kinds of characters stands for
fn expected(k: &[u8], c: &[u8]) -> Option<([u8; 4], usize)> {
    let mut out = [0; 4];
    let mut n = 0;
    let (mut a, mut b) = (0, k.len());
    while a < b && k[a] == SPACE {
        a += 1;
    }
    while a < b && k[b - 1] == SPACE {
        b -= 1;
    }
    if a == b {
        return None;
    }
    let mut compact = true;
    let mut i = a;
    while i < b {
        if !is_hex(k[i]) {
            compact = false;
        }
        i += 1;
    }
    if compact && (b - a) % 2 == 1 {
        return None;
    }
    i = a;
    while i < b {
        if !compact && (k[i] == SPACE || k[i] == MARK) {
            i += 1;
            continue;
        }
        if !compact && i + 1 < b && k[i] == ZERO && k[i + 1] == CROSS {
            i += 2;
        }
        if i + 1 >= b || !is_hex(k[i]) || !is_hex(k[i + 1]) {
            return None;
        }
        out[n] = nibble(k[i], c[i]) * 16 + nibble(k[i + 1], c[i + 1]);
        n += 1;
        i += 2;
        if !compact && i < b && k[i] != SPACE && k[i] != MARK {
            return None;
        }
    }
    if n == 0 {
        return None;
    }
    Some((out, n))
}
fn check(k: &[u8], c: &[u8]) {
    let Ok(s) = core::str::from_utf8(c) else { return };
    match (expected(k, c), output::decode_hex_bytes(s)) {
        (Some((w, n)), Ok(v)) => {
            reached("bytes");
            verify(v.len() == n, "number of bytes");
            let mut i = 0;
            while i < n {
                verify(v[i] == w[i], "value of a byte");
                i += 1;
            }
        }
        (None, Err(e)) => {
            reached("refused");
            verify(e.code() == "input.invalid_hex" || e.code() == "input.empty", "the error names the reason");
        }
        (Some(_), Err(_)) => verify(false, "valid input is accepted"),
        (None, Ok(_)) => verify(false, "invalid input is refused"),
    }
}
pub fn hex4(k: &[u8; 4], c: &[u8; 4]) {
    exact_text();
    let mut i = 0;
    while i < 4 {
        assume(k[i] < 8);
        i += 1;
    }
    let k = [split(k[0]), split(k[1]), split(k[2]), split(k[3])];
    i = 0;
    while i < 4 {
        kind(k[i], c[i]);
        i += 1;
    }
    check(&k, c);
}
/// one, two or three characters
pub fn hex3(n: usize, k: &[u8; 3], c: &[u8; 3]) {
    exact_text();
    assume(n >= 1 && n <= 3);
    let n = split(n);
    let mut i = 0;
    while i < 3 {
        assume(k[i] < 8);
        i += 1;
    }
    let k = [split(k[0]), split(k[1]), split(k[2])];
    i = 0;
    while i < n {
        kind(k[i], c[i]);
        i += 1;
    }
    check(&k[..n], &c[..n]);
}
pub fn hex5(k: &[u8; 5], c: &[u8; 5]) {
    exact_text();
    let mut i = 0;
    while i < 5 {
        assume(k[i] < 7);
        i += 1;
    }
    let k = [split(k[0]), split(k[1]), split(k[2]), split(k[3]), split(k[4])];
    i = 0;
    while i < 5 {
        kind(k[i], c[i]);
        i += 1;
    }
    check(&k, c);
}
/// six characters: digits, spaces and prefixes
pub fn hex6(k: &[u8; 6], c: &[u8; 6]) {
    exact_text();
    let mut i = 0;
    while i < 6 {
        assume(k[i] < 4);
        i += 1;
    }
    let k = [split(k[0]), split(k[1]), split(k[2]), split(k[3]), split(k[4]), split(k[5])];
    const KINDS: [u8; 4] = [ZERO, UPPER, SPACE, CROSS];
    let k = [KINDS[k[0] as usize], KINDS[k[1] as usize], KINDS[k[2] as usize], KINDS[k[3] as usize], KINDS[k[4] as usize], KINDS[k[5] as usize]];
    i = 0;
    while i < 6 {
        kind(k[i], c[i]);
        i += 1;
    }
    check(&k, c);
}
/// prefixed bytes with every separator
pub fn prefixed(sep: usize, form: usize, d: &[u8; 4]) {
    exact_text();
    assume(sep < 7);
    assume(form < 4);
    let sep = [b' ', b':', b'-', b'\n', b'\t', b'\r', b','][split(sep)];
    let form = split(form);
    kind(DIGIT, d[0]);
    kind(UPPER, d[1]);
    kind(LOWER, d[2]);
    kind(ZERO, d[3]);
    let x = if form & 1 == 0 { b'x' } else { b'X' };
    let c = [b'0', x, d[0], d[1], sep, b'0', x, d[2], d[3]];
    // with the separator twice
    let e = [d[0], d[1], sep, sep, d[2], d[3]];
    let Ok(s) = core::str::from_utf8(&c) else { return };
    let Ok(t) = core::str::from_utf8(&e) else { return };
    match output::decode_hex_bytes(if form < 2 { s } else { t }) {
        Ok(v) => {
            verify(sep != b',', "a comma does not separate bytes");
            verify(v.len() == 2, "number of bytes");
            verify(v[0] == (d[0] - b'0') * 16 + (d[1] - b'A') + 10, "value of a byte");
            verify(v[1] == (d[2] - b'a' + 10) * 16, "value of a byte");
            reached("prefixed");
        }
        Err(e) => {
            verify(sep == b',', "valid input is accepted");
            verify(e.code() == "input.invalid_hex", "the error names the reason");
            reached("comma");
        }
    }
}
/// characters outside ASCII, signs and inner signs are refused
pub fn foreign(i: usize) {
    exact_text();
    assume(i < 9);
    let s = ["é1", "1é", "1\u{a0}", "+1", "1+", "12 +3", "-1", "0x", "12 0x"][split(i)];
    verify(output::decode_hex_bytes(s).is_err(), "invalid input is refused");
    reached("foreign");
}
pub fn blank(i: usize) {
    exact_text();
    assume(i < 5);
    let s = ["", " ", " \n\t", ":", " - "][split(i)];
    match output::decode_hex_bytes(s) {
        Ok(_) => verify(false, "empty input is refused"),
        Err(e) => verify(e.code() == "input.empty", "the error names the reason"),
    }
    reached("blank");
}
