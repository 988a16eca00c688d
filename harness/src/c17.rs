//! Codes and layers of failures.
use crate::spec::*;
use m_bus_parser::*;

/// the code and the layer follow from the kind of failure and not from what it says
pub fn table(k: u8, t: &str, i: usize) {
    assume(k < 8);
    let s = String::from(t);
    let (e, code, layer) = match split(k) {
        0 => (OutputError::EmptyInput, "input.empty", "input"),
        1 => (OutputError::InvalidHex { index: i, message: s }, "input.invalid_hex", "input"),
        2 => (OutputError::InvalidFrame { wired: s, wireless: String::from(t) }, "frame.invalid", "link"),
        3 => (OutputError::UnsupportedFormat { format: s }, "format.unsupported", "render"),
        4 => (OutputError::InvalidOption { option: "key", message: s }, "option.invalid", "render"),
        5 => (OutputError::Decryption { code: "security.decryption_failed", message: s }, "security.decryption_failed", "security"),
        6 => (OutputError::Rendering { code: "xml.unsupported", message: s }, "xml.unsupported", "application"),
        _ => (OutputError::Serialization { format: "json", message: s }, "render.serialization", "render"),
    };
    verify(e.code() == code, "code");
    verify(e.layer() == layer, "layer");
    reached("table");
}
fn is(e: &OutputError, code: &str, layer: &str) {
    verify(e.code() == code, "code of a failure");
    verify(e.layer() == layer, "layer of a failure");
    reached("failure");
}
const TEXTS: [(&str, &str, &str); 12] = [
    ("", "input.empty", "input"),
    ("   ", "input.empty", "input"),
    ("6", "input.invalid_hex", "input"),
    ("zz", "input.invalid_hex", "input"),
    ("68 0", "input.invalid_hex", "input"),
    ("E5 G0", "input.invalid_hex", "input"),
    ("68", "frame.invalid", "link"),
    ("00", "frame.invalid", "link"),
    ("1040014216", "frame.invalid", "link"),
    ("1040014115", "frame.invalid", "link"),
    ("68030368080178811", "input.invalid_hex", "input"),
    ("680303680801788216", "frame.invalid", "link"),
];
/// what is wrong with the input decides, whatever the format
pub fn inputs(i: u8, f: u8) {
    exact_text();
    assume(i < 12);
    assume(f < 5);
    let (t, code, layer) = TEXTS[split(i) as usize];
    let f = [OutputFormat::Table, OutputFormat::Json, OutputFormat::Yaml, OutputFormat::Csv, OutputFormat::Mermaid][split(f) as usize];
    let o = RenderOptions::default();
    match render_hex(t, f, &o) {
        Err(e) => is(&e, code, layer),
        Ok(_) => verify(false, "refused"),
    }
    match decode_hex(t, &o.decode) {
        Err(e) => is(&e, code, layer),
        Ok(_) => verify(false, "refused by the decoder"),
    }
    if let Ok(b) = decode_hex_bytes(t) {
        match render_bytes(&b, f, &o) {
            Err(e) => is(&e, code, layer),
            Ok(_) => verify(false, "bytes refused"),
        }
    }
}
pub fn formats(i: u8) {
    exact_text();
    assume(i < 6);
    let t = ["", "tab", "jsonx", "x", "annotate", "text"][split(i) as usize];
    match <OutputFormat as core::str::FromStr>::from_str(t) {
        Err(e) => is(&e, "format.unsupported", "render"),
        Ok(_) => verify(false, "refused"),
    }
}
/// frames that the specialised formats do not show
pub fn special(i: u8) {
    exact_text();
    assume(i < 4);
    let t = ["FFFFFFFF", "1040014216", "680303680801788216", "00"][split(i) as usize];
    let o = RenderOptions::default();
    match render_hex(t, OutputFormat::Xml, &o) {
        Err(e) => is(&e, "xml.unsupported", "application"),
        Ok(_) => verify(false, "refused"),
    }
    match render_hex(t, OutputFormat::AnnotatedText, &o) {
        Err(e) => is(&e, "annotation.failed", "application"),
        Ok(_) => verify(false, "refused as annotated text"),
    }
}
/// security modes with a key: decrypted, or one of the two reasons it was not
pub fn modes(m: u8) {
    exact_text();
    assume(m < 32);
    let m = split(m);
    let mut f = [0x2Fu8; 47];
    let head = [0x2E, 0x44, 0x2F, 0x2F, 0x78, 0x56, 0x34, 0x12, 0x01, 0x07, 0x7A, 0x2A, 0x00, 0x20];
    let mut i = 0;
    while i < 14 {
        f[i] = head[i];
        i += 1;
    }
    f[14] = m;
    let mut o = DecodeOptions::default();
    o.include_enrichment = false;
    o.key = Some([1; 16]);
    match decode_bytes(&f, &o) {
        Ok(_) => {
            verify(m == 0 || m == 5 || m == 7, "decrypted in the mode that is supported");
            reached("decrypted");
        }
        Err(e) => is(&e, "security.unsupported_mode", "security"),
    }
}
pub fn records(i: u8) {
    exact_text();
    assume(i < 4);
    let t: &[u8] = [&[][..], &[0x04, 0x13, 1], &[0x01, 0x13, 1, 0x02], &[0x84]][split(i) as usize];
    match decode_data_records(t) {
        Err(e) if t.is_empty() => is(&e, "input.empty", "input"),
        Err(e) => is(&e, "application.records_invalid", "application"),
        Ok(_) => verify(false, "refused"),
    }
}
pub fn widths(w: usize) {
    exact_text();
    assume(w < 12);
    let mut o = RenderOptions::default();
    o.table_width = Some(split(w));
    match render_hex("1040014116", OutputFormat::Table, &o) {
        Err(e) => is(&e, "option.invalid", "render"),
        Ok(_) => reached("wide enough"),
    }
}
