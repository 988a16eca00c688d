//! The WebAssembly front end.
use crate::frames::*;
use crate::spec::*;
use m_bus_parser_wasm_pack::*;

const MARKS: [u8; 12] = [b'&', b'"', b'<', b'>', b'\'', b'\n', b',', b'\r', b'a', b';', b'/', 0x7F];
fn markup(source: &str) -> String {
    match m_bus_highlight(source, "csv") {
        Ok(t) => t,
        Err(_) => {
            verify(false, "highlighted");
            String::new()
        }
    }
}
/// highlighted text has the tags the same text without marks has, and everything else is escaped
pub fn highlight(k: &[u8; 3]) {
    exact_text();
    let mut t = [0; 3];
    let mut p = [0; 3];
    let mut i = 0;
    while i < 3 {
        assume(k[i] < 12);
        let c = MARKS[split(k[i]) as usize];
        t[i] = c;
        p[i] = if c == b'&' || c == b'<' || c == b'>' || c == b'\'' { b'x' } else { c };
        i += 1;
    }
    if let (Ok(t), Ok(p)) = (core::str::from_utf8(&t), core::str::from_utf8(&p)) {
        let plain = markup(p);
        let html = markup(t);
        verify(tally(&html, "<") == tally(&plain, "<") && tally(&html, ">") == tally(&html, "<"), "no tags");
        verify(tally(&html, "\"") == tally(&html, "<"), "quotes only in attributes");
        verify(tally(&html, "'") == 0, "no apostrophes");
        verify(entities(&html), "no entities");
        reached("csv");
    }
}


fn report<T>(r: Result<T, m_bus_parser::OutputError>, got: Result<T, wasm_bindgen::JsValue>) -> Option<(T, T)> {
    match (r, got) {
        (Ok(a), Ok(b)) => Some((a, b)),
        (Err(a), Err(b)) => {
            verify(property(&b, "code") == a.code(), "the code of the failure");
            verify(property(&b, "layer") == a.layer(), "the layer of the failure");
            reached("failure");
            None
        }
        _ => {
            verify(false, "fails when the library fails");
            None
        }
    }
}
fn equal(r: Result<String, m_bus_parser::OutputError>, got: Result<String, wasm_bindgen::JsValue>) {
    if let Some((a, b)) = report(r, got) {
        verify(a == b, "the text the library makes");
        reached("text");
    }
}
pub fn render(f: u8, d: u8) {
    exact_text();
    assume(f < 8);
    assume(d < 3);
    let f = FORMATS[split(f) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    equal(library(d, f, None, None, true), m_bus_render(d, f, None, None, None));
    if let Ok(t) = library(d, f, None, None, true) {
        verify(m_bus_parse(d, f) == t, "the text without options");
        verify(m_bus_parse_with_key(d, f, "") == t, "the text without a key");
    }
    if let Ok(t) = library(d, f, Some(PLAIN_KEY), None, true) {
        verify(m_bus_parse_with_key(d, f, KEY) == t, "the text with a key");
    }
}
/// every choice of key, width and names
pub fn choices(f: u8, d: u8, w: u8, k: bool, n: u8) {
    exact_text();
    assume(f < 8);
    assume(d < 3);
    assume(w < 6);
    assume(n < 3);
    let f = FORMATS[split(f) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let w = [None, Some(0), Some(31), Some(32), Some(80), Some(200)][split(w) as usize];
    let n = [None, Some(true), Some(false)][split(n) as usize];
    let k = split(k);
    let names = match n {
        Some(false) => false,
        _ => true,
    };
    let key = if k { Some(PLAIN_KEY) } else { None };
    let text = if k { Some(String::from(KEY)) } else { None };
    equal(library(d, f, key, w, names), m_bus_render(d, f, text, w, n));
}
/// a key that is none is refused, whatever the frame
pub fn keys(k: u8, d: u8) {
    exact_text();
    assume(k < 12);
    assume(d < 3);
    let k = KEYS[split(k) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let code = match m_bus_parser::decode_hex_bytes(k) {
        Ok(_) => "option.invalid",
        Err(e) => e.code(),
    };
    match m_bus_render(d, "table", Some(String::from(k)), None, None) {
        Ok(_) => verify(false, "refused"),
        Err(e) => verify(property(&e, "code") == code, "the code of a malformed key"),
    }
    match m_bus_decode(d, Some(String::from(k)), None) {
        Ok(_) => verify(false, "refused by the decoder"),
        Err(e) => verify(property(&e, "code") == code, "the code of a malformed key of the decoder"),
    }
    reached("refused");
}
pub fn failures(i: u8, f: u8) {
    exact_text();
    assume(i < 14);
    assume(f < 9);
    let f = ["table", "json", "yaml", "mermaid", "xml", "annotated-text", "annotated", "", "tab"][split(f) as usize];
    let d = BROKEN[split(i) as usize];
    if f != "annotated" {
        equal(library(d, f, None, None, true), m_bus_render(d, f, None, None, None));
    }
}
/// the object is made of what the library decodes
pub fn decode(d: u8, k: bool, n: u8) {
    exact_text();
    assume(d < 6);
    assume(n < 3);
    let d = [FRAME, CLEAR, SEALED, "", "zz", "1040014216"][split(d) as usize];
    let n = [None, Some(true), Some(false)][split(n) as usize];
    let k = split(k);
    let names = match n {
        Some(false) => false,
        _ => true,
    };
    let key = if k { Some(PLAIN_KEY) } else { None };
    let text = if k { Some(String::from(KEY)) } else { None };
    let r = m_bus_parser::decode_hex(d, &options(key, None, names).decode);
    match (r, m_bus_decode(d, text, n)) {
        (Ok(a), Ok(b)) => {
            verify(property(&b, "") == serialised("object", &a), "what the library decodes");
            reached("decoded");
        }
        (Err(a), Err(b)) => {
            verify(property(&b, "code") == a.code() && property(&b, "layer") == a.layer(), "the code of the failure");
            reached("failure");
        }
        _ => verify(false, "fails when the library fails"),
    }
}
