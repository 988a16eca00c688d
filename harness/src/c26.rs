//! No line of a table is wider than was asked for, and wrapping loses no text.
use crate::c21::framed;
use crate::spec::*;
use m_bus_parser::*;

const LETTERS: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.,:/()";

fn table(f: &[u8], width: Option<usize>, names: bool) -> Result<String, OutputError> {
    let mut o = RenderOptions { table_width: width, ..Default::default() };
    o.decode.include_enrichment = names;
    render_bytes(f, OutputFormat::Table, &o)
}
/// the same text is shown at this width as at another of the same layout
fn fits(f: &[u8], w: usize, names: bool) {
    let other = if w < 72 { 71 } else if w < 100 { 99 } else { 200 };
    let all = match table(f, Some(other), names) {
        Ok(t) => tally(&t, LETTERS),
        Err(_) => 0,
    };
    match table(f, Some(w), names) {
        Ok(t) => {
            verify(widest(&t) <= w, "no line wider than the width");
            verify(tally(&t, LETTERS) == all, "no text lost");
        }
        Err(_) => verify(false, "a table"),
    }
}
fn width(w: u16) -> usize {
    assume(w >= 32 && w <= 140);
    split(w) as usize
}
/// a few widths of each layout
fn some_width(i: u8) -> usize {
    assume(i < 12);
    [32, 33, 40, 57, 71, 72, 73, 85, 99, 100, 101, 120][split(i) as usize]
}
const RECORDS: [u8; 21] = [
    0x78, 0x04, 0x13, 1, 2, 3, 4, 0x0D, 0x78, 0x05, b'a', b'b', b'c', b'd', b'e', 0x02, 0x6C, 0x8C, 0x11, 0x0D, 0xFD,
];
pub fn records(w: u16) {
    exact_text();
    let w = width(w);
    let (f, n) = framed(&RECORDS);
    fits(&f[..n], w, false);
    reached("table");
}
/// a long header whose manufacturer is known
pub fn header(w: u16) {
    exact_text();
    let w = width(w);
    let (f, n) = framed(&[0x72, 0x78, 0x56, 0x34, 0x12, 0x2D, 0x2C, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x01, 0x13, 0x05]);
    fits(&f[..n], w, true);
    reached("table");
}
/// no records, and a payload that cannot be parsed
pub fn bare(w: u16, k: u8) {
    exact_text();
    let w = width(w);
    assume(k < 4);
    let (f, n) = match split(k) {
        0 => framed(&[0x78]),
        1 => framed(&[0x55, 1, 2, 3]),
        2 => framed(&[0x7A, 0x2A, 0, 0, 0x05, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]),
        _ => framed(&[0x78, 0x04, 0x13, 1]),
    };
    fits(&f[..n], w, false);
    reached("table");
}
/// a text of one character many times over, control characters included
pub fn text(i: u8, c: u8) {
    exact_text();
    let w = some_width(i);
    assume(c != 10 && c < 0x80 && (c < 0x22 || c == b'a' || c == b'~' || c == 0x7F));
    let c = split(c);
    let mut p = [c; 44];
    p[0] = 0x78;
    p[1] = 0x0D;
    p[2] = 0x78;
    p[3] = 40;
    let (f, n) = framed(&p);
    fits(&f[..n], w, false);
    reached("table");
}
/// a line break anywhere in a text
pub fn broken(i: u8, at: u8) {
    exact_text();
    let w = some_width(i);
    assume(at < 40);
    let mut p = [b'a'; 44];
    p[0] = 0x78;
    p[1] = 0x0D;
    p[2] = 0x78;
    p[3] = 40;
    p[4 + split(at) as usize] = 10;
    let (f, n) = framed(&p);
    fits(&f[..n], w, false);
    reached("table");
}
/// a width too small for a table is refused, whatever the frame
pub fn refused(w: u8) {
    exact_text();
    assume(w < 32);
    let w = split(w) as usize;
    let (f, n) = framed(&RECORDS);
    too_narrow(&f[..n], w);
    let (f, n) = framed(&[0x78]);
    too_narrow(&f[..n], w);
    too_narrow(&[0xE5], w);
    reached("refused");
}
fn too_narrow(f: &[u8], w: usize) {
    match table(f, Some(w), false) {
        Err(e) => verify(e.code() == "option.invalid" && e.layer() == "render", "too narrow"),
        Ok(_) => verify(false, "refused"),
    }
}
/// without a width a hundred columns
pub fn preset() {
    exact_text();
    let (f, n) = framed(&RECORDS);
    match table(&f[..n], None, false) {
        Ok(t) => verify(widest(&t) <= 100, "no line wider than the preset width"),
        Err(_) => verify(false, "a table"),
    }
    reached("preset");
}
