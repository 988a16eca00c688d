//! The segments of an annotated frame cover every byte once and in order.
use crate::c05::crc;
use crate::c21::framed;
use crate::spec::*;
use m_bus_parser::annotate::*;

/// each segment starts where the one before ends, and the last one ends with the input
fn tiles(f: &[u8]) {
    verify(if_any(f), "annotated");
}
fn if_any(f: &[u8]) -> bool {
    match annotate_frame(f) {
        Ok(s) => {
            let mut at = 0;
            let mut i = 0;
            let mut ok = true;
            while i < s.len() {
                ok = ok && s[i].start == at && s[i].end > at;
                at = s[i].end;
                i += 1;
            }
            verify(ok, "contiguous segments");
            verify(at == f.len(), "up to the last byte");
            reached("annotated");
            true
        }
        Err(_) => false,
    }
}
pub fn single() {
    tiles(&[0xE5]);
}
pub fn short(c: u8, a: u8) {
    match annotate_frame(&[0x10, c, a, c.wrapping_add(a), 0x16]) {
        Ok(s) => {
            verify(s.len() == 5 && s[0].start == 0 && s[4].end == 5, "all of a short frame");
            let mut i = 0;
            while i < s.len() {
                verify(s[i].start == i && s[i].end == i + 1, "the bytes of a short frame");
                i += 1;
            }
            reached("annotated");
        }
        Err(_) => {}
    }
}
/// every control information code, the header cut off anywhere, filler records
pub fn headers(ci: u8, n: u8, clear: bool) {
    exact_text();
    assume(n < 24);
    let n = split(n) as usize;
    let ci = split(ci);
    let clear = split(clear);
    let mut p = [0x2Fu8; 32];
    p[0] = ci;
    // the configuration field: no encryption, or some
    let mut i = 1;
    while i < 13 {
        p[i] = if clear { 0 } else { 5 };
        i += 1;
    }
    let (f, k) = framed(&p[..n + 1]);
    tiles(&f[..k]);
}
/// a record with any first byte, cut off anywhere, followed by fillers
fn record(dif: u8, second: u8, third: u8, n: usize) {
    let p = [0x78, dif, second, third, 0x04, 0x13, 0x01, 0x42, 0x02, 0x2F, 0x99, 0x41, 0x05, 0x0F];
    let (f, k) = framed(&p[..n + 2]);
    tiles(&f[..k]);
}
const SECOND: [u8; 14] = [0x00, 0x13, 0x6D, 0x7C, 0x7F, 0x80, 0x8F, 0x93, 0xFB, 0xFC, 0xFD, 0xFF, 0x0F, 0x2F];
const THIRD: [u8; 10] = [0x00, 0x01, 0x05, 0x13, 0x2F, 0x7C, 0x93, 0xC2, 0xE1, 0xFC];
pub fn records(dif: u8, i: u8, n: u8) {
    assume(i < 5);
    some_records(dif, i, n);
}
pub fn records_extended(dif: u8, i: u8, n: u8) {
    assume(i >= 5 && i < 10);
    some_records(dif, i, n);
}
pub fn records_special(dif: u8, i: u8, n: u8) {
    assume(i >= 10 && i < 14);
    some_records(dif, i, n);
}
fn some_records(dif: u8, i: u8, n: u8) {
    exact_text();
    assume(n < 13);
    let n = split(n) as usize;
    let second = SECOND[split(i) as usize];
    let dif = split(dif);
    record(dif, second, 0x03, n);
}
pub fn extended(i: u8, j: u8, k: u8, n: u8) {
    exact_text();
    assume(i < 14);
    assume(j < 10);
    assume(k < 10);
    assume(n < 13);
    let n = split(n) as usize;
    let third = THIRD[split(j) as usize];
    let second = SECOND[split(i) as usize];
    let dif = [0x04, 0x84, 0x0D, 0x8D, 0x0C, 0x01, 0x07, 0x00, 0x02, 0x8E][split(k) as usize];
    record(dif, second, third, n);
}
/// a radio frame of this many bytes after the address, with or without checksums
fn radio(n: usize, records: bool, ci: u8) -> [u8; 96] {
    let mut f = [0x2F; 96];
    if records {
        let mut i = 12;
        while i + 5 < 96 {
            f[i] = 0x02;
            f[i + 1] = 0xFD;
            f[i + 2] = 0x17;
            f[i + 3] = 0;
            f[i + 4] = 0;
            i += 5;
        }
    }
    f[0] = n as u8 + 9;
    f[1] = 0x44;
    f[2] = 0x93;
    f[3] = 0x15;
    f[4] = 0x78;
    f[5] = 0x56;
    f[6] = 0x34;
    f[7] = 0x12;
    f[8] = 1;
    f[9] = 7;
    f[10] = ci;
    f
}
const CODES: [u8; 8] = [0x72, 0x7A, 0x78, 0x8C, 0x8D, 0x8E, 0xA0, 0x00];
pub fn plain_radio(n: u8, c: u8, records: bool) {
    exact_text();
    assume(n >= 1 && n < 40);
    assume(c < 8);
    let c = split(c) as usize;
    let n = split(n) as usize;
    let f = radio(n, split(records), CODES[c]);
    tiles(&f[..n + 10]);
}
/// with a checksum over the whole frame at its end
pub fn checked_radio(n: u8, c: u8, records: bool) {
    exact_text();
    assume(n >= 1 && n < 40);
    assume(c < 8);
    let c = split(c) as usize;
    let n = split(n) as usize;
    let mut f = radio(n, split(records), CODES[c]);
    f[0] += 2;
    let w = crc(&f[..n + 10]);
    f[n + 10] = (w >> 8) as u8;
    f[n + 11] = w as u8;
    tiles(&f[..n + 12]);
}
/// with a checksum after each block, and perhaps a few more bytes than that
fn blocks(n: usize, c: u8, records: bool, more: usize, counted: bool) {
    let mut f = radio(n, records, c);
    if counted {
        f[0] += more as u8;
    }
    let mut g = [0x2Fu8; 128];
    let mut i = 0;
    while i < 10 {
        g[i] = f[i];
        i += 1;
    }
    let w = crc(&g[..10]);
    g[10] = (w >> 8) as u8;
    g[11] = w as u8;
    let mut k = 12;
    while i < n + 10 {
        let start = k;
        while i < n + 10 && k < start + 16 {
            g[k] = f[i];
            i += 1;
            k += 1;
        }
        let w = crc(&g[start..k]);
        g[k] = (w >> 8) as u8;
        g[k + 1] = w as u8;
        k += 2;
    }
    if more == 0 {
        tiles(&g[..k]);
    } else {
        if_any(&g[..k + more]);
    }
}
pub fn checked_blocks(n: u8, c: u8, records: bool) {
    exact_text();
    assume(n >= 1 && n < 52);
    assume(c < 8);
    let c = split(c) as usize;
    let n = split(n) as usize;
    blocks(n, CODES[c], split(records), 0, false);
}
pub fn more_bytes(n: u8, m: u8, counted: bool) {
    exact_text();
    assume(n >= 1 && n < 36);
    assume(m >= 1 && m < 5);
    let n = split(n) as usize;
    let m = split(m) as usize;
    blocks(n, 0x78, true, m, split(counted));
}
