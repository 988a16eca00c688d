//! Decoding and rendering.
use crate::spec::*;
use m_bus_parser::*;

const SECOND: [u8; 9] = [0x13, 0x6D, 0x7C, 0x7F, 0x93, 0xFB, 0xFC, 0xFD, 0xFF];
fn framed(p: &[u8]) -> ([u8; 48], usize) {
    let mut f = [0u8; 48];
    let n = p.len() + 2;
    f[0] = 0x68;
    f[1] = n as u8;
    f[2] = n as u8;
    f[3] = 0x68;
    f[4] = 0x08;
    f[5] = 0x01;
    let mut sum = 9u8;
    let mut i = 0;
    while i < p.len() {
        f[6 + i] = p[i];
        sum = sum.wrapping_add(p[i]);
        i += 1;
    }
    f[6 + i] = sum;
    f[7 + i] = 0x16;
    (f, i + 8)
}
/// a record with any first byte, at several values, cut off in several places
fn document(dif: u8, i: u8, v: u8, n: u8, format: OutputFormat) {
    exact_text();
    assume(i < 9);
    assume(v < 2);
    assume(n < 2);
    let n = [7, 18][split(n) as usize];
    let v = [0x79u8, 0xFF][split(v) as usize];
    let second = SECOND[split(i) as usize];
    let dif = split(dif);
    // the function and the first bit of the storage number
    if dif & 0x70 != 0 && dif & 0x70 != 0x70 {
        return;
    }
    let third = if second & 0x80 != 0 { 0x13 } else { v };
    let p = [0x78, dif, second, third, v, v, v, 0x01, 0x42, v, v, v, v, v, 0x2F, 0x01, 0x13, v];
    let (f, k) = framed(&p[..n]);
    match render_bytes(&f[..k], format, &RenderOptions::default()) {
        Ok(_) => reached("text"),
        Err(_) => reached("refused"),
    }
}
pub fn json(dif: u8, i: u8, v: u8, n: u8) {
    document(dif, i, v, n, OutputFormat::Json);
}
pub fn csv(dif: u8, i: u8, v: u8, n: u8) {
    document(dif, i, v, n, OutputFormat::Csv);
}
pub fn mermaid(dif: u8, i: u8, v: u8, n: u8) {
    document(dif, i, v, n, OutputFormat::Mermaid);
}
pub fn annotated_text(dif: u8, i: u8, v: u8, n: u8) {
    document(dif, i, v, n, OutputFormat::AnnotatedText);
}
