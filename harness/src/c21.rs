//! A document is complete only if nothing was lost.
use crate::c13::{no_trailer, options, wire};
use crate::spec::*;
use m_bus_parser::*;

/// a long frame around an application layer payload
pub(crate) fn framed(p: &[u8]) -> ([u8; 64], usize) {
    let mut f = [0u8; 64];
    let n = p.len();
    f[0] = 0x68;
    f[1] = n as u8 + 2;
    f[2] = n as u8 + 2;
    f[3] = 0x68;
    f[4] = 8;
    f[5] = 1;
    let mut sum = 9u8;
    let mut i = 0;
    while i < n {
        f[6 + i] = p[i];
        sum = sum.wrapping_add(p[i]);
        i += 1;
    }
    f[6 + n] = sum;
    f[7 + n] = 0x16;
    (f, n + 8)
}
/// how often a reason is given, and how many warnings there are
fn count(d: &DecodedOutput, code: &str) -> (usize, usize) {
    let (mut n, mut w) = (0, 0);
    let mut i = 0;
    while i < d.diagnostics.len() {
        if d.diagnostics[i].code == code {
            n += 1;
        }
        if d.diagnostics[i].severity == "warning" {
            w += 1;
        }
        i += 1;
    }
    (n, w)
}
fn is_complete(d: &DecodedOutput) {
    verify(d.decode_state == "complete", "complete if nothing was lost");
    verify(count(d, "").1 == 0, "no warning if nothing was lost");
}
fn is_partial(d: &DecodedOutput, code: &str) {
    verify(d.decode_state == "partial", "partial if something was lost");
    let (n, w) = count(d, code);
    verify(n == 1 && w == 1, "a warning names the reason");
}
/// payloads, and the records before the first one that cannot be parsed
const TAILS: [(&[u8], usize, bool); 20] = [
    (&[], 0, true),
    (&[0x01, 0x13, 0x05], 1, true),
    (&[0x04, 0x13, 0x05], 0, false),
    (&[0x01, 0x13, 0x05, 0x04, 0x13, 0x05, 0x06, 0x07], 1, false),
    (&[0x01, 0x13, 0x05, 0x04, 0x13, 0x05, 0x06, 0x07, 0x08], 2, true),
    (&[0x2F, 0x2F, 0x01, 0x13, 0x05, 0x2F], 1, true),
    (&[0x01, 0x13, 0x05, 0x2F, 0x2F, 0x02], 1, false),
    (&[0x0A, 0x13, 0x12, 0xA4], 0, false),
    (&[0x0A, 0x13, 0x12, 0x34], 1, true),
    (&[0x01, 0x13, 0x05, 0x0C, 0x13, 0x11, 0x22, 0x33, 0x4B], 1, false),
    (&[0x0F, 0x11, 0x22], 1, true),
    (&[0x01, 0x13, 0x05, 0x0F], 2, true),
    (&[0x1F, 0x11], 1, true),
    (&[0x01], 0, false),
    (&[0x81], 0, false),
    (&[0x01, 0x13, 0x05, 0x01, 0x13], 1, false),
    (&[0x0D, 0x13, 0xE3, 0x01, 0x02], 0, false),
    (&[0x0D, 0x13, 0xE2, 0x01, 0x02], 1, true),
    (&[0x02, 0x6C, 0x21, 0x13, 0x02, 0x6C, 0x21], 1, false),
    (&[0x04, 0x6D, 0x21, 0x13, 0x21, 0x13, 0x01, 0x93, 0x00], 1, false),
];
fn judged(r: Result<DecodedOutput, OutputError>, records: usize, whole: bool) {
    match r {
        Ok(d) => {
            verify(d.records.len() == records, "the records before the first that cannot be parsed are shown");
            if whole {
                is_complete(&d);
                reached("complete");
            } else {
                is_partial(&d, "application.record_partial");
                reached("partial");
            }
        }
        Err(_) => verify(false, "the frame is decoded"),
    }
}
pub fn wired_records(i: usize, access: u8, status: u8) {
    exact_text();
    assume(i < 20);
    let (tail, records, whole) = TAILS[split(i)];
    let mut p = [0u8; 40];
    p[0] = 0x72;
    p[1] = 0x78;
    p[2] = 0x56;
    p[3] = 0x34;
    p[4] = 0x12;
    p[5] = 0x93;
    p[6] = 0x15;
    p[7] = 0x33;
    p[8] = 0x03;
    p[9] = access;
    p[10] = status;
    let mut k = 0;
    while k < tail.len() {
        p[13 + k] = tail[k];
        k += 1;
    }
    let (f, n) = framed(&p[..13 + tail.len()]);
    judged(decode_bytes(&f[..n], &options(None)), records, whole);
}
pub fn radio_records(i: usize, access: u8) {
    exact_text();
    assume(i < 20);
    let (tail, records, whole) = TAILS[split(i)];
    let mut f = [0u8; 40];
    let n = 15 + tail.len();
    f[0] = n as u8 - 1;
    f[1] = 0x44;
    f[2] = 0x93;
    f[3] = 0x15;
    f[4] = 0x78;
    f[5] = 0x56;
    f[6] = 0x34;
    f[7] = 0x12;
    f[8] = 0x33;
    f[9] = 0x03;
    f[10] = 0x7A;
    f[11] = access;
    let mut k = 0;
    while k < tail.len() {
        f[15 + k] = tail[k];
        k += 1;
    }
    let f = &f[..n];
    assume(crate::c05::crc(&f[..10]) != u16::from_be_bytes([f[10], f[11]]));
    no_trailer(f);
    judged(decode_bytes(f, &options(None)), records, whole);
}
/// an application layer that cannot be parsed
pub fn unknown(data: &[u8; 12]) {
    exact_text();
    wire(data);
    let ci = split(data[6]);
    assume(ci != 0x72 && ci != 0x76 && ci != 0x7A && ci != 0x73 && ci != 0x77 && ci != 0x78 && ci != 0x8C);
    match user_data::UserDataBlock::try_from(&data[6..10]) {
        Ok(_) => {
            if let Ok(d) = decode_bytes(data, &options(None)) {
                reached("parsed");
                is_complete(&d);
            }
        }
        Err(_) => {
            if let Ok(d) = decode_bytes(data, &options(None)) {
                reached("not parsed");
                is_partial(&d, "application.partial");
                verify(d.records.is_empty(), "no records");
            }
        }
    }
}
/// the same records behind every header that carries them
pub fn headers(h: usize, i: usize, access: u8) {
    exact_text();
    assume(i < 20);
    assume(h < 4);
    let (tail, records, whole) = TAILS[split(i)];
    let head: &[u8] = match split(h) {
        0 => &[0x78],
        1 => &[0x7A, 0x2A, 0, 0, 0],
        2 => &[0x8C, 0x20, 0x27, 0x78],
        _ => &[0x8C, 0x20, 0x27, 0x7A, 0x2A, 0, 0, 0],
    };
    let mut p = [0u8; 40];
    let n = head.len() + tail.len();
    let mut k = 0;
    while k < head.len() {
        p[k] = head[k];
        k += 1;
    }
    p[2] = if h == 2 || h == 3 { access } else { p[2] };
    while k < n {
        p[k] = tail[k - head.len()];
        k += 1;
    }
    let (f, n) = framed(&p[..n]);
    judged(decode_bytes(&f[..n], &options(None)), records, whole);
}
/// a payload left encrypted
pub fn encrypted(data: &[u8; 30]) {
    exact_text();
    wire(data);
    assume(data[6] == 0x7A);
    let m = split(data[10] & 31);
    assume(m != 0);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("encrypted");
        is_partial(&d, "security.key_missing");
        verify(d.records.is_empty(), "no records");
    }
}
/// a key that was not needed changes nothing
pub fn unused(i: usize, key: [u8; 16]) {
    exact_text();
    assume(i < 20);
    let (tail, records, whole) = TAILS[split(i)];
    let mut p = [0u8; 40];
    p[0] = 0x78;
    let mut k = 0;
    while k < tail.len() {
        p[1 + k] = tail[k];
        k += 1;
    }
    let (f, n) = framed(&p[..1 + tail.len()]);
    let r = decode_bytes(&f[..n], &options(Some(key)));
    if let Ok(d) = &r {
        reached("unused");
        verify(count(d, "security.key_unused").0 == 1, "an unused key is reported");
    }
    judged(r, records, whole);
}
/// frames without an application layer
pub fn bare(data: &[u8; 5]) {
    exact_text();
    assume(data[0] == 0x10 && data[4] == 0x16);
    assume(data[1] == 0x5B);
    if let Ok(d) = decode_bytes(data, &options(None)) {
        reached("short");
        is_complete(&d);
        verify(d.records.is_empty() && d.diagnostics.is_empty(), "nothing to report");
    }
    if let Ok(d) = decode_bytes(&[0xE5], &options(None)) {
        reached("acknowledgement");
        is_complete(&d);
        verify(d.records.is_empty() && d.diagnostics.is_empty(), "nothing to report");
    }
}
