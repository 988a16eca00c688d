//! Vocabulary understood by the analyser. The bodies are never executed.
pub fn verify(_cond: bool, _label: &'static str) {}
pub fn assume(_cond: bool) {}
pub fn any<T>() -> T {
    panic!()
}
pub fn split<T: Copy>(x: T) -> T {
    x
}
pub fn exact_text() {}
/// the most characters in a line
pub fn widest(_t: &str) -> usize {
    0
}
/// the bytes of the text that are in the set
pub fn tally(_t: &str, _set: &'static str) -> usize {
    0
}
/// every ampersand starts a predefined or numeric entity
pub fn entities(_t: &str) -> bool {
    true
}
pub fn reached(_label: &'static str) {}
pub fn show<T>(_x: T) {}
pub fn same<T: ?Sized>(_a: &T, _b: &T) -> bool {
    true
}
pub fn same_region<T>(_a: &[T], _b: &[T]) -> bool {
    true
}
pub fn offset_in<T>(_a: &[T], _b: &[T]) -> usize {
    0
}
/// an object of a scripting language: text (0), bytes (1) or something else (2)
pub fn object<T>(_content: &[u8], _kind: usize) -> T {
    loop {}
}
/// a property of such an object, or the text it was made from
#[cfg(feature = "full")]
pub fn property<T>(_object: &T, _name: &'static str) -> String {
    String::new()
}
/// what the program finds: "arguments", "file" or "columns"
pub fn supply<T>(_what: &'static str, _x: T) {}
/// what was written to "stdout" or "stderr"
#[cfg(feature = "full")]
pub fn printed(_where: &'static str) -> String {
    String::new()
}
/// what a serialiser makes of a value
#[cfg(feature = "full")]
pub fn serialised<T>(_how: &'static str, _x: &T) -> String {
    String::new()
}
/// a text contains another
pub fn mentions(_text: &str, _other: &str) -> bool {
    false
}
