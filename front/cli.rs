//! The command line program.
use crate::frames::*;
use crate::spec::*;
use crate::*;

fn call(d: &str, f: &str, key: Option<&str>, width: Option<usize>, bare: bool) -> ExitCode {
    let key = match key {
        Some(k) => Some(String::from(k)),
        None => None,
    };
    supply("arguments", Cli { command: Command::Parse { file: None, data: Some(String::from(d)), format: String::from(f), key, width, no_enrichment: bare } });
    main()
}
/// what the program prints and how it ends
fn judge(r: Result<String, m_bus_parser::OutputError>, end: ExitCode) {
    let out = printed("stdout");
    let err = printed("stderr");
    match r {
        Ok(t) => {
            verify(same(&end, &ExitCode::SUCCESS), "success");
            verify(out == t && err.is_empty(), "the text the library makes");
            reached("text");
        }
        Err(e) => {
            verify(!same(&end, &ExitCode::SUCCESS), "failure");
            verify(out.is_empty() && mentions(&err, e.code()), "the code of the failure");
            reached("failure");
        }
    }
}
pub fn render(f: u8, d: u8) {
    exact_text();
    assume(f < 8);
    assume(d < 3);
    let f = FORMATS[split(f) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    // not a terminal: a hundred columns
    judge(library(d, f, None, Some(100), true), call(d, f, None, None, false));
}
/// every choice of key, width and names
pub fn choices(f: u8, d: u8, w: u8, k: bool, bare: bool) {
    exact_text();
    assume(f < 8);
    assume(d < 3);
    assume(w < 5);
    let f = FORMATS[split(f) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let w = [0, 31, 32, 80, 200][split(w) as usize];
    let bare = split(bare);
    let k = split(k);
    let key = if k { Some(PLAIN_KEY) } else { None };
    let text = if k { Some(KEY) } else { None };
    judge(library(d, f, key, Some(w), !bare), call(d, f, text, Some(w), bare));
}
/// on a terminal its width is taken
pub fn terminal(c: u8, given: bool) {
    exact_text();
    assume(c < 4);
    let c = [40u16, 72, 100, 180][split(c) as usize];
    let given = split(given);
    supply("columns", c);
    let w = if given { Some(64) } else { None };
    let r = library(FRAME, "table", None, Some(if given { 64 } else { c as usize }), true);
    judge(r, call(FRAME, "table", None, w, false));
}
/// a key that is none is refused, whatever the frame
pub fn keys(k: u8, d: u8) {
    exact_text();
    assume(k < 12);
    assume(d < 3);
    let k = KEYS[split(k) as usize];
    let d = [FRAME, CLEAR, SEALED][split(d) as usize];
    let end = call(d, "table", Some(k), None, false);
    verify(!same(&end, &ExitCode::SUCCESS) && printed("stdout").is_empty(), "refused");
    verify(mentions(&printed("stderr"), "option.invalid"), "the code of a malformed key");
    reached("refused");
}
pub fn failures(i: u8, f: u8) {
    exact_text();
    assume(i < 14);
    assume(f < 8);
    let f = ["table", "json", "yaml", "mermaid", "xml", "annotated-text", "", "tab"][split(f) as usize];
    let d = BROKEN[split(i) as usize];
    judge(library(d, f, None, Some(100), true), call(d, f, None, None, false));
}
fn from_file(there: bool) -> ExitCode {
    supply("arguments", Cli { command: Command::Parse { file: Some(PathBuf::new()), data: None, format: String::from("table"), key: None, width: None, no_enrichment: false } });
    if there {
        supply("file", String::from(CLEAR));
    }
    main()
}
/// the frame is read from a file, or a file that cannot be read is reported
pub fn file() {
    exact_text();
    judge(library(CLEAR, "table", None, Some(100), true), from_file(true));
}
pub fn no_file() {
    exact_text();
    let end = from_file(false);
    verify(!same(&end, &ExitCode::SUCCESS) && printed("stdout").is_empty(), "a file that cannot be read");
    reached("failure");
}
pub fn no_input() {
    exact_text();
    supply("arguments", Cli { command: Command::Parse { file: None, data: None, format: String::from("table"), key: None, width: None, no_enrichment: false } });
    let end = main();
    verify(!same(&end, &ExitCode::SUCCESS) && printed("stdout").is_empty(), "neither data nor a file");
    verify(mentions(&printed("stderr"), "option.invalid"), "the code of missing input");
    reached("failure");
}
