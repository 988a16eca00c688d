//! Frames and the choices a caller can make.
use core::str::FromStr;
use m_bus_parser::*;

pub const FORMATS: [&str; 8] = ["table", "json", "yaml", "yml", "mermaid", "xml", "annotated-text", "JSON"];
/// a long frame: a volume, a text and a record that is cut off
pub const FRAME: &str = "681212680801780413010203040D7803613C62026C8C2316";
pub const CLEAR: &str = "681B1B68080172785634122D2C0107550000000413010203040C06112233442216";
/// an encrypted radio frame
pub const SEALED: &str = "2E442F2F7856341201077A2A00200500070E151C232A31383F464D545B626970777E858C939AA1A8AFB6BDC4CBD2D9";
pub const KEY: &str = "000102030405060708090A0B0C0D0E0F";
pub fn options(key: Option<[u8; 16]>, width: Option<usize>, names: bool) -> RenderOptions {
    let mut o = RenderOptions::default();
    o.decode.key = key;
    o.decode.include_enrichment = names;
    o.table_width = width;
    o
}
/// what the library makes of the same choices
pub fn library(d: &str, f: &str, key: Option<[u8; 16]>, width: Option<usize>, names: bool) -> Result<String, OutputError> {
    match OutputFormat::from_str(f) {
        Ok(f) => render_hex(d, f, &options(key, width, names)),
        Err(e) => Err(e),
    }
}
pub const PLAIN_KEY: [u8; 16] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15];
pub const KEYS: [&str; 12] = [
    "0", "00", "000102030405060708090A0B0C0D0E", "000102030405060708090A0B0C0D0E0", "000102030405060708090A0B0C0D0E0F0", "000102030405060708090A0B0C0D0E0F10",
    "000102030405060708090A0B0C0D0E0G", "G", "x", "00 01 02 03 04 05 06 07 08 09 0A 0B 0C 0D 0E", "000102030405060708090A0B0C0D0E0F000102030405060708090A0B0C0D0E0F", "-",
];
pub const BROKEN: [&str; 14] = [
    "", " ", "6", "zz", "68", "E5", "10", "1040014116", "1040014216", "6803036808017AFF16", "68030368080178811", "FF FF FF FF", "0x", "2E44",
];
