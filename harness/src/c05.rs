//! Wireless framing: length, trailing frame checksum, checksums of format A blocks.
use crate::spec::*;
use m_bus_parser::WirelessFrame;
use wireless_mbus_link_layer::{strip_format_a_crcs, trailing_frame_crc_start};

/// CRC-16/EN-13757: polynomial 3D65, initial value 0, complemented
pub fn crc(b: &[u8]) -> u16 {
    let mut r = 0u16;
    for x in b {
        r ^= (*x as u16) << 8;
        let mut k = 0;
        while k < 8 {
            r = if r & 0x8000 != 0 { (r << 1) ^ 0x3D65 } else { r << 1 };
            k += 1;
        }
    }
    !r
}
fn word(b: &[u8], i: usize) -> u16 {
    b[i] as u16 * 256 + b[i + 1] as u16
}
fn letters(m: u16) -> bool {
    let l = |x: u16| x >= 1 && x <= 26;
    l(m / 1024) && l(m / 32 % 32) && l(m % 32)
}
fn digits(b: u8) -> bool {
    b / 16 < 10 && b % 16 < 10
}
/// what is accepted has the announced length, and the payload is what lies between header and frame checksum
pub fn accepted(data: &[u8]) {
    let n = data.len();
    if let Ok(f) = WirelessFrame::try_from(data) {
        verify(n == data[0] as usize + 1, "the length byte counts the bytes that follow");
        verify(n >= 11, "an accepted frame has a complete header");
        verify(f.control_field == data[1], "control field");
        if n < 12 {
            verify(same_region(f.data, &data[10..]), "everything after the header is payload");
        } else if crc(&data[..n - 2]) == word(data, n - 2) {
            reached("trailing checksum");
            verify(same_region(f.data, &data[10..n - 2]), "a frame checksum that verifies is not payload");
        } else {
            reached("no trailing checksum");
            verify(same_region(f.data, &data[10..]), "without a frame checksum everything after the header is payload");
        }
    }
}
/// a frame of the announced length with valid address is accepted
pub fn wellformed(data: &[u8]) {
    let n = data.len();
    assume(n >= 11);
    assume(n == data[0] as usize + 1);
    assume(letters(data[3] as u16 * 256 + data[2] as u16));
    assume(digits(data[4]) && digits(data[5]) && digits(data[6]) && digits(data[7]));
    match WirelessFrame::try_from(data) {
        Ok(_) => reached("accepted"),
        Err(_) => verify(false, "a well-formed wireless frame is accepted"),
    }
}
/// the frame checksum is recognised exactly if it verifies over everything before it
pub fn trailing(data: &[u8]) {
    let n = data.len();
    let ok = n >= 12 && crc(&data[..n - 2]) == word(data, n - 2);
    match trailing_frame_crc_start(data) {
        Some(p) => {
            reached("found");
            verify(ok, "only a checksum that verifies is recognised");
            verify(p == n - 2, "the checksum is the last two bytes");
        }
        None => {
            reached("not found");
            verify(!ok, "a checksum that verifies is recognised");
        }
    }
}
/// whatever is stripped, the first block verified and the result is no longer than what was given
pub fn first_block(data: &[u8], out: &mut [u8]) {
    if let Some(r) = strip_format_a_crcs(data, out) {
        reached("stripped");
        verify(data.len() >= 12, "a first block with its checksum is present");
        verify(crc(&data[..10]) == word(data, 10), "the first block verifies");
        verify(r.len() >= 10 && r.len() + 2 <= data.len(), "only checksums are removed");
    }
}
/// a first block that verifies, and room for the result
pub fn strips(data: &[u8], out: &mut [u8]) {
    assume(data.len() >= 12 && out.len() >= data.len());
    assume(crc(&data[..10]) == word(data, 10));
    match strip_format_a_crcs(data, out) {
        Some(_) => reached("stripped"),
        None => verify(false, "a frame whose first block verifies is stripped"),
    }
}
fn check(data: &[u8; 52], n: usize, from: &[(usize, usize)]) {
    let mut out = [0u8; 52];
    match strip_format_a_crcs(&data[..n], &mut out) {
        Some(r) => {
            reached("stripped");
            let mut p = 0;
            let mut i = 0;
            while i < from.len() {
                let mut k = from[i].0;
                while k < from[i].1 {
                    verify(p < r.len() && (p == 0 || r[p] == data[k]), "the data of the blocks in order");
                    p += 1;
                    k += 1;
                }
                i += 1;
            }
            verify(r.len() == p, "all of the data and nothing else");
            verify(r[0] as usize == p - 1, "the length byte is that of the stripped frame");
        }
        None => verify(false, "a frame whose first block verifies is stripped"),
    }
}
fn block(data: &[u8; 52], at: usize, len: usize) {
    assume(crc(&data[at..at + len]) == word(data, at + len));
}
/// one block of 1 to 16 bytes after the first
pub fn one_block(data: &[u8; 52], d: usize) {
    assume(d >= 1 && d <= 16);
    let d = split(d);
    block(data, 0, 10);
    block(data, 12, d);
    check(data, 14 + d, &[(0, 10), (12, 12 + d)]);
}
/// a full block, then one of 1 to 16 bytes
pub fn two_blocks(data: &[u8; 52], d: usize) {
    assume(d >= 1 && d <= 16);
    let d = split(d);
    block(data, 0, 10);
    block(data, 12, 16);
    block(data, 30, d);
    check(data, 32 + d, &[(0, 10), (12, 28), (30, 30 + d)]);
}
/// bytes after the blocks that are too few for a block with checksum
pub fn tail(data: &[u8; 52], t: usize) {
    assume(t <= 2);
    let t = split(t);
    block(data, 0, 10);
    check(data, 12 + t, &[(0, 10), (12, 12 + t)]);
    block(data, 12, 16);
    check(data, 30 + t, &[(0, 10), (12, 28), (30, 30 + t)]);
}
/// bytes after the first block no beginning of which verifies
pub fn unverified(data: &[u8; 52], t: usize) {
    assume(t >= 3 && t <= 18);
    let t = split(t);
    block(data, 0, 10);
    let mut d = 1;
    while d + 2 <= t {
        assume(crc(&data[12..12 + d]) != word(data, 12 + d));
        d += 1;
    }
    check(data, 12 + t, &[(0, 10), (12, 12 + t)]);
}
