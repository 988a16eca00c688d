//! The Python bindings.
use crate::frames::*;
use crate::spec::*;
use crate::*;

fn text<'a>(t: &str) -> Bound<'a, PyAny> {
    object(t.as_bytes(), 0)
}
fn error_is(e: &PyErr, code: &str) {
    verify(property(e, "class") == "MbusParserError", "the class of the failure");
    verify(mentions(&property(e, ""), code), "the code of the failure");
    reached("failure");
}
fn equal(r: Result<String, OutputError>, got: PyResult<String>) {
    match (r, got) {
        (Ok(a), Ok(b)) => {
            verify(a == b, "the text the library makes");
            reached("text");
        }
        (Err(a), Err(b)) => error_is(&b, a.code()),
        _ => verify(false, "fails when the library fails"),
    }
}
/// every choice of key, width and names; text or bytes
pub fn choices(f: u8, d: u8, w: u8, k: u8, names: bool) {
    chosen(f, d, w, k, names, false);
}
pub fn byte_choices(f: u8, d: u8, w: u8, k: u8, names: bool) {
    chosen(f, d, w, k, names, true);
}
fn chosen(f: u8, d: u8, w: u8, k: u8, names: bool, bytes: bool) {
    exact_text();
    assume(f < 8);
    assume(d < 3);
    assume(w < 6);
    assume(k < 3);
    let f = FORMATS[split(f) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let w = [None, Some(0), Some(31), Some(32), Some(80), Some(200)][split(w) as usize];
    let k = split(k);
    let names = split(names);
    let key = if k > 0 { Some(PLAIN_KEY) } else { None };
    let r = library(d, f, key, w, names);
    let data = match (bytes, decode_hex_bytes(d)) {
        (true, Ok(b)) => object(&b, 1),
        _ => text(d),
    };
    let got = match k {
        0 => render(&data, f, None, w, names),
        1 => render(&data, f, Some(&text(KEY)), w, names),
        _ => render(&data, f, Some(&object(&PLAIN_KEY, 1)), w, names),
    };
    equal(r, got);
}
/// the older function has a key and nothing else to choose
pub fn older(f: u8, d: u8, k: bool) {
    exact_text();
    assume(f < 8);
    assume(d < 3);
    let f = FORMATS[split(f) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let k = split(k);
    let key = if k { Some(PLAIN_KEY) } else { None };
    let text = if k { Some(KEY) } else { None };
    equal(library(d, f, key, None, true), m_bus_parse(d, f, text));
}
/// a key that is none is refused, whatever the frame
pub fn keys(k: u8, d: u8) {
    exact_text();
    assume(k < 12);
    assume(d < 3);
    let k = KEYS[split(k) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let code = match decode_hex_bytes(k) {
        Ok(_) => "option.invalid",
        Err(e) => e.code(),
    };
    match render(&text(d), "table", Some(&text(k)), None, true) {
        Ok(_) => verify(false, "refused"),
        Err(e) => error_is(&e, code),
    }
    match m_bus_parse(d, "table", Some(k)) {
        Ok(_) => verify(false, "refused by the older function"),
        Err(e) => error_is(&e, code),
    }
    match parse(object(b"", 2), &text(d), Some(&text(k)), true) {
        Ok(_) => verify(false, "refused by the decoder"),
        Err(e) => error_is(&e, code),
    }
}
/// so is one of another length, given as bytes
pub fn byte_keys(n: u8) {
    exact_text();
    assume(n < 20 && n != 16);
    let n = split(n) as usize;
    let k = [7u8; 20];
    let code = if n == 0 { "input.empty" } else { "option.invalid" };
    match render(&text(SEALED), "table", Some(&object(&k[..n], 1)), None, true) {
        Ok(_) => verify(false, "refused"),
        Err(e) => error_is(&e, code),
    }
}
pub fn failures(i: u8, f: u8) {
    exact_text();
    assume(i < 14);
    assume(f < 8);
    let f = ["table", "json", "yaml", "mermaid", "xml", "annotated-text", "", "tab"][split(f) as usize];
    let d = BROKEN[split(i) as usize];
    // the bindings look at the data first
    let r = match decode_hex_bytes(d) {
        Ok(_) => library(d, f, None, None, true),
        Err(e) => Err(e),
    };
    equal(r, render(&text(d), f, None, None, true));
    equal(library(d, f, None, None, true), m_bus_parse(d, f, None));
}
/// the object is made of what the library decodes
pub fn decode(d: u8, k: bool, names: bool) {
    exact_text();
    assume(d < 6);
    let d = [FRAME, CLEAR, SEALED, "", "zz", "1040014216"][split(d) as usize];
    let names = split(names);
    let k = split(k);
    let key = if k { Some(PLAIN_KEY) } else { None };
    let r = match decode_hex_bytes(d) {
        Ok(b) => decode_bytes(&b, &options(key, None, names).decode),
        Err(e) => Err(e),
    };
    let kt = text(KEY);
    let got = parse(object(b"", 2), &text(d), if k { Some(&kt) } else { None }, names);
    match (r, got) {
        (Ok(a), Ok(b)) => {
            verify(property(&b, "") == serialised("serde_json::to_string", &a), "what the library decodes");
            reached("decoded");
        }
        (Err(a), Err(b)) => error_is(&b, a.code()),
        _ => verify(false, "fails when the library fails"),
    }
}
/// records without a frame
pub fn records(d: u8) {
    exact_text();
    assume(d < 6);
    let d = ["041301020304", "0413010203040C0611223344", "", "zz", "0413", "FF"][split(d) as usize];
    let r = match decode_hex_bytes(d) {
        Ok(b) => decode_data_records(&b),
        Err(e) => Err(e),
    };
    match (&r, parse_records(object(b"", 2), &text(d))) {
        (Ok(a), Ok(b)) => {
            verify(property(&b, "") == serialised("serde_json::to_string", a), "the records of the library");
            reached("records");
        }
        (Err(a), Err(b)) => error_is(&b, a.code()),
        _ => verify(false, "fails when the library fails"),
    }
    match (&r, parse_application_layer(d)) {
        (Ok(a), Ok(b)) => verify(b == serialised("serde_json::to_string", a), "the text of the records"),
        (Err(a), Err(b)) => error_is(&b, a.code()),
        _ => verify(false, "fails when the library fails"),
    }
}
