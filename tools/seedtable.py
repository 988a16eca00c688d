CORE = "crates/m-bus-core/src/lib.rs"
WIRED = "crates/wired-mbus-link-layer/src/lib.rs"
RADIO = "crates/wireless-mbus-link-layer/src/lib.rs"
APP = "crates/m-bus-application-layer/src/lib.rs"
DI = "crates/m-bus-application-layer/src/data_information.rs"
VI = "crates/m-bus-application-layer/src/value_information.rs"
DR = "crates/m-bus-application-layer/src/data_record.rs"
XML = "src/rscada_xml.rs"
MD = "src/mbus_data.rs"
HL = "wasm/src/highlight.rs"
OUT = "src/output.rs"
ANN = "src/annotate.rs"
CLI = "cli/src/main.rs"
DEC = "crates/m-bus-core/src/decryption.rs"

SEEDS = [
    dict(id="s04a", prop="C04", edits=[(WIRED, "data.len() != length + 6 {", "data.len() < length + 6 {")],
         needs="a long frame with bytes after the length it announces",
         breaks="a frame longer than its length field says is accepted",
         demo='''fn main() {
    let mut f = hex("68 03 03 68 53 01 51 00 A5 16");
    let n = f.len();
    f[n - 2] = f[4..n - 2].iter().fold(0u8, |a, b| a.wrapping_add(*b));
    assert!(WiredFrame::try_from(&f[..]).is_err());
}
'''),
    dict(id="s04b", prop="C04", edits=[(WIRED, "validate_checksum(data.get(1..).ok_or(FrameError::LengthShort)?)?;", "if second_byte != 0x40 {\n                    validate_checksum(data.get(1..).ok_or(FrameError::LengthShort)?)?;\n                }")],
         needs="a short frame with control field 0x40 and a wrong checksum",
         breaks="the checksum of one kind of short frame is not checked",
         demo='''fn main() {
    assert!(WiredFrame::try_from(&hex("10 40 01 99 16")[..]).is_err());
    assert!(WiredFrame::try_from(&hex("10 40 01 41 16")[..]).is_ok());
}
'''),
    dict(id="s11a", prop="C11", edits=[(CORE, "Self::ReservedHigher(mode) => *mode & 0b0001_1111,", "Self::ReservedHigher(mode) => *mode & 0b0000_1111,")],
         needs="a security mode above 15",
         breaks="reserved security modes lose their top bit when converted back",
         demo='''fn main() {
    assert_eq!(m_bus_core::SecurityMode::from_bits(0x13).to_bits(), 0x13);
}
'''),
    dict(id="s11b", prop="C11", edits=[(CORE, "0x2B..=0x2F => DeviceType::ReservedEnvironmental(value),", "0x2B..=0x2E => DeviceType::ReservedEnvironmental(value),\n            0x2F => DeviceType::ServiceTool,")],
         needs="device type code 0x2F",
         breaks="a reserved device type is reported as a service tool and does not convert back",
         demo='''fn main() {
    let d = m_bus_core::DeviceType::from(0x2F);
    assert_eq!(u8::from(d), 0x2F);
}
'''),
    dict(id="s11c", prop="C11", edits=[(CORE, """            && second_letter.is_ascii_uppercase()
            && third_letter.is_ascii_uppercase()""", """            && second_letter.is_ascii_uppercase()
            && third_letter.is_ascii()""")],
         needs="a manufacturer id whose last five bits are 0 or above 26",
         breaks="ids that are no three letters are accepted as manufacturer codes",
         demo='''fn main() {
    assert!(m_bus_core::ManufacturerCode::from_id((1 << 10) | (1 << 5) | 27).is_err());
}
'''),
    dict(id="s01a", prop="C01", edits=[(RADIO, "let ci_byte = *data.get(8).ok_or(FrameError::TooShort)?;", "let ci_byte = data[8];")],
         needs="a wireless frame that ends with its header",
         breaks="a wireless frame without control information panics",
         demo='''fn main() {
    assert!(WirelessFrame::try_from(&hex("09 44 AE 4C 44 55 22 33 68 07")[..]).is_err());
}
'''),
    dict(id="s03b", prop="C03", edits=[(APP, """                    data_information::SpecialFunctions::Reserved => {
                        self.offset += 1;
                    }""", """                    data_information::SpecialFunctions::Reserved => {}""")],
         needs="a reserved special function among the records",
         breaks="iterating over the records hangs",
         demo='''fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(5));
        std::process::exit(3);
    });
    let _ = m_bus_parser::user_data::parse_data_records(&hex("3F 01 13 05")).count();
}
'''),
    dict(id="s05a", prop="C05", edits=[(RADIO, "if crc_start < 10 {", "if crc_start < 12 {")],
         needs="a frame of a bare header with its checksum",
         breaks="the checksum of the shortest frames is handed out as payload",
         demo='''fn crc(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in d {
        for i in (0..8).rev() {
            let x = (c >> 15) ^ u16::from(b >> i & 1);
            c = (c << 1) ^ if x == 1 { 0x3D65 } else { 0 };
        }
    }
    !c
}
fn main() {
    let mut f = hex("0C 44 AE 4C 44 55 22 33 68 07 7A");
    let c = crc(&f).to_be_bytes();
    f.extend(c);
    assert_eq!(WirelessFrame::try_from(&f[..]).unwrap().data, &[0x7A]);
}
'''),
    dict(id="s05b", prop="C05", edits=[(RADIO, "let max_data_len = 16.min(remaining - 2);", "let max_data_len = 18.min(remaining - 2);")],
         needs="a block longer than the standard allows whose last two bytes look like its checksum",
         breaks="two bytes of data that are no block checksum are removed",
         demo='''fn crc(d: &[u8]) -> u16 {
    let mut c = 0u16;
    for b in d {
        for i in (0..8).rev() {
            let x = (c >> 15) ^ u16::from(b >> i & 1);
            c = (c << 1) ^ if x == 1 { 0x3D65 } else { 0 };
        }
    }
    !c
}
fn main() {
    let mut f = hex("1C 44 AE 4C 44 55 22 33 68 07");
    let c = crc(&f).to_be_bytes();
    f.extend(c);
    let b = hex("7A 01 02 03 04 05 06 07 08 09 0A 0B 0C 0D 0E 0F 10");
    f.extend(&b);
    f.extend(crc(&b).to_be_bytes());
    let mut out = [0u8; 64];
    let n = f.len();
    assert_eq!(wireless_mbus_link_layer::strip_format_a_crcs(&f, &mut out).unwrap().len(), n - 2);
}
'''),
    dict(id="s05c", prop="C05", edits=[(RADIO, "if length_byte + 1 == length {", "if length_byte + 1 == length || length_byte + 3 == length {")],
         needs="a frame two bytes longer than its length byte says",
         breaks="frames with two surplus bytes are accepted",
         demo='''fn main() {
    assert!(WirelessFrame::try_from(&hex("0C 44 AE 4C 44 55 22 33 68 07 7A 55 00 00 00")[..]).is_err());
}
'''),
    dict(id="s08b", prop="C08", edits=[(DI, "        data_value += f64::from(digit) * current_weight;\n        current_weight *= 10.0;", "        data_value += f64::from(digit) * current_weight;\n        current_weight = f64::from((current_weight * 10.0) as f32);")],
         needs="a decimal field of twelve digits",
         breaks="the weight of the eleventh and twelfth digit is rounded",
         demo='''use m_bus_parser::user_data::{DataRecord, data_information::DataType};
fn main() {
    let f = hex("0E 13 00 00 00 00 00 10");
    let r = DataRecord::try_from(&f[..]).unwrap();
    assert_eq!(r.value(), Some(&DataType::Number(100000000000.0)));
}
'''),
    dict(id="s09a", prop="C09", edits=[(DI, "0xC => SingleEveryOrInvalid::Single(Month::December),", "0x0 | 0xC => SingleEveryOrInvalid::Single(Month::December),")],
         needs="a date with month zero",
         breaks="an invalid month is reported as December",
         demo='''use m_bus_parser::user_data::{DataRecord, data_information::DataType};
fn main() {
    let f = hex("02 6C 01 20");
    let r = DataRecord::try_from(&f[..]).unwrap();
    if let Some(DataType::Date(_, m, _)) = r.value() {
        assert_eq!(format!("{m:?}"), "Invalid");
    } else {
        panic!();
    }
}
'''),
    dict(id="s09b", prop="C09", edits=[(DI, """                let hours = parse_single_or_every!(
                    input.get(2).ok_or(DataRecordError::InsufficientData)?,
                    0x1F,
                    0x1F,
                    0
                );
                let days""", """                let hours = parse_single_or_every!(
                    input.get(2).ok_or(DataRecordError::InsufficientData)?,
                    0x3F,
                    0x1F,
                    0
                );
                let days""")],
         needs="a date-time with seconds and the bit above the hours set",
         breaks="the hour of the day is wrong",
         demo='''use m_bus_parser::user_data::DataRecord;
fn main() {
    let a = hex("06 6D 01 02 23 01 11 00");
    let b = hex("06 6D 01 02 03 01 11 00");
    let a = DataRecord::try_from(&a[..]).unwrap();
    let b = DataRecord::try_from(&b[..]).unwrap();
    assert_eq!(a.value(), b.value());
}
'''),
    dict(id="s10a", prop="C10", edits=[(DI, "device |= u64::from((dife & 0x40) >> 6) << device_index;", "device |= u64::from((dife & 0x40) >> 6) << device_index.min(2);")],
         needs="a subunit above seven",
         breaks="the fourth and later bits of the subunit land on the third",
         demo='''use m_bus_parser::user_data::DataRecord;
fn main() {
    let f = hex("84 80 80 80 40 13 01 00 00 00");
    let r = DataRecord::try_from(&f[..]).unwrap();
    assert_eq!(r.data_information().unwrap().device, 8);
}
'''),
    dict(id="s06a", prop="C06", edits=[("crates/m-bus-application-layer/src/extended_link_layer.rs", "session_number: [data[10], data[11], data[12], data[13]],", "session_number: [data[10], data[11], data[12], data[12]],")],
         needs="an extended link layer of format III whose last two session bytes differ",
         breaks="the last byte of the session number is taken from the byte before it",
         demo='''use m_bus_parser::user_data::UserDataBlock;
fn main() {
    let f = hex("8E 01 02 03 04 05 06 07 08 09 0A 0B 0C 0D 0E 0F 10 11 12");
    match UserDataBlock::try_from(&f[..]).unwrap() {
        UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), .. } => {
            assert_eq!(e.encryption.unwrap().session_number, [0x0B, 0x0C, 0x0D, 0x0E])
        }
        _ => panic!(),
    }
}
'''),
    dict(id="s06b", prop="C06", edits=[(APP, '''                if lsb_order {
                    identification_number_bytes.reverse();
                }

                Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
                    long_tpl_header: LongTplHeader {''', '''                if lsb_order && identification_number_bytes[0] != 0 {
                    identification_number_bytes.reverse();
                }

                Ok(UserDataBlock::VariableDataStructureWithLongTplHeader {
                    long_tpl_header: LongTplHeader {''')],
         needs="a long header in most significant byte first order whose identification number starts with two zeros",
         breaks="the digits of the identification number come out in the wrong order",
         demo='''use m_bus_parser::user_data::UserDataBlock;
fn main() {
    let a = hex("72 00 34 56 78 93 15 32 04 01 00 00 00");
    let b = hex("76 78 56 34 00 93 15 32 04 01 00 00 00");
    let c = hex("76 00 34 56 78 93 15 32 04 01 00 00 00");
    let n = |f: &[u8]| match UserDataBlock::try_from(f).unwrap() {
        UserDataBlock::VariableDataStructureWithLongTplHeader { long_tpl_header, .. } => long_tpl_header.identification_number.number,
        _ => panic!(),
    };
    assert_ne!(n(&a), n(&c));
    assert_eq!(n(&a), n(&b));
}
'''),
    dict(id="s07a", prop="C07", edits=[(APP, '''                    Err(error) => {
                        self.offset = self.data.len();''', '''                    Err(error) => {
                        self.offset += 1;''')],
         needs="a payload with a record that cannot be parsed before its end",
         breaks="after an error the rest of the payload is presented as further records",
         demo='''use m_bus_parser::user_data::parse_data_records;
fn main() {
    let f = hex("04 13 01 13 07");
    let mut it = parse_data_records(&f);
    while let Some(Ok(_)) = it.next() {}
    assert!(it.next().is_none());
}
'''),
    dict(id="s07b", prop="C07", edits=[(DI, '''                        match bcd_to_value!(bytes, 2 * length as usize, -1) {
                            Ok(data) => Ok(Data {
                                value: data.value,
                                size: data.size + 1,''', '''                        match bcd_to_value!(bytes, 2 * length as usize, -1) {
                            Ok(data) => Ok(Data {
                                value: data.value,
                                size: if length > 6 { data.size } else { data.size + 1 },''')],
         needs="a negative decimal number of more than twelve digits",
         breaks="the record ends one byte early and the next one starts inside it",
         demo='''use m_bus_parser::user_data::parse_data_records;
fn main() {
    let f = hex("0D 13 D7 01 02 03 04 05 06 07 01 13 09");
    let s: Vec<usize> = parse_data_records(&f).map(|r| r.unwrap().get_size()).collect();
    assert_eq!(s, [10, 3]);
}
'''),
    dict(id="s07c", prop="C07", edits=[(VI, '''            // 1 byte for the length of the ASCII string
            size += plaintext_vife.len() + 1;''', '''            // 1 byte for the length of the ASCII string
            if !plaintext_vife.is_empty() {
                size += plaintext_vife.len() + 1;
            }''')],
         needs="a unit in plain text of length zero",
         breaks="the length byte of an empty unit is counted as data",
         demo='''use m_bus_parser::user_data::parse_data_records;
fn main() {
    let f = hex("01 FC 3B 00 05 01 13 09");
    let s: Vec<usize> = parse_data_records(&f).map(|r| r.unwrap().get_size()).collect();
    assert_eq!(s, [5, 3]);
}
'''),
    dict(id="s12a", prop="C12", edits=[(VI, '''                0x7D => {
                    *decimal_scale_exponent += 3;''', '''                0x7D => {
                    *decimal_scale_exponent = 3;''')],
         needs="a thousandfold correction behind a code that has a scale of its own",
         breaks="the scale of the code itself is dropped",
         demo='''use m_bus_parser::user_data::DataRecord;
fn main() {
    let f = hex("04 93 7D 01 00 00 00");
    let r = DataRecord::try_from(&f[..]).unwrap();
    assert_eq!(r.value_information().unwrap().decimal_scale_exponent, 0);
}
'''),
    dict(id="s12b", prop="C12", edits=[(VI, '''                        decimal_scale_exponent +=
                            (value_information_block.value_information.data & 0b111) as isize - 7;''', '''                        decimal_scale_exponent +=
                            (value_information_block.value_information.data & 0b111) as isize - 6;''')],
         needs="a volume flow per minute",
         breaks="volume flows per minute are ten times too large",
         demo='''use m_bus_parser::user_data::DataRecord;
fn main() {
    let f = hex("02 42 01 00");
    let r = DataRecord::try_from(&f[..]).unwrap();
    assert_eq!(r.value_information().unwrap().decimal_scale_exponent, -5);
}
'''),
    dict(id="s14a", prop="C14", edits=[(OUT, '''            OutputError::Decryption {
                code,
                message: error.to_string(),
            }''', '''            let message = match code {
                "security.unsupported_mode" => {
                    format!("{error} (key {:02X}{:02X}..)", key[0], key[1])
                }
                _ => error.to_string(),
            };
            OutputError::Decryption { code, message }''')],
         needs="a key given for a payload in an encryption mode that is not supported",
         breaks="the first bytes of the key appear in the error",
         demo='''fn main() {
    let f = hex("2E44931578563412330333637A2A00202D 5923C95AAA26D1B2E7493BC2AD013EC4 A6F6D3529B520EDFF0EA6DEFC955B29D 6D69EBF3EC8A");
    let e = |k: [u8; 16]| format!("{}", decode_bytes(&f, &DecodeOptions { key: Some(k), include_enrichment: true }).unwrap_err());
    assert_eq!(e([0xA7; 16]), e([0x3C; 16]));
}
'''),
    dict(id="s14b", prop="C14", edits=[(OUT, '''    let mut provider = crate::decryption::StaticKeyProvider::<1>::new();
    match user_data {''', '''    let mut provider = crate::decryption::StaticKeyProvider::<1>::new();
    if key.iter().all(|byte| byte == &key[0]) {
        return Err(crate::decryption::DecryptionError::InvalidKeyLength);
    }
    match user_data {''')],
         needs="a key whose sixteen bytes are equal",
         breaks="whether a frame is decoded tells something about the key",
         demo='''fn main() {
    let f = hex("2E44931578563412330333637A2A002025 5923C95AAA26D1B2E7493BC2AD013EC4 A6F6D3529B520EDFF0EA6DEFC955B29D 6D69EBF3EC8A");
    let e = |k: [u8; 16]| decode_bytes(&f, &DecodeOptions { key: Some(k), include_enrichment: true }).is_ok();
    let mut other = [0x55; 16];
    other[3] = 1;
    assert_eq!(e([0x55; 16]), e(other));
}
'''),
    dict(id="s15a", prop="C15", edits=[(OUT, '''    if security_context.encrypted && !security_context.decrypted {
        diagnostics.push(Diagnostic {''', '''    static WARNED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if security_context.encrypted
        && !security_context.decrypted
        && WARNED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) < 100
    {
        diagnostics.push(Diagnostic {''')],
         needs="more than a hundred encrypted frames decoded without a key in one process",
         breaks="the warning about a missing key depends on how many frames came before",
         demo='''fn main() {
    let f = hex("2E44931578563412330333637A2A002025 5923C95AAA26D1B2E7493BC2AD013EC4 A6F6D3529B520EDFF0EA6DEFC955B29D 6D69EBF3EC8A");
    let d = || decode_bytes(&f, &DecodeOptions::default()).unwrap().diagnostics.len();
    let first = d();
    for _ in 0..200 {
        assert_eq!(d(), first);
    }
}
'''),
    dict(id="s19a", prop="C19", edits=[(VI, '''fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformationError> {''', '''extern crate alloc;

fn extract_plaintext_vife(data: &[u8]) -> Result<ArrayVec<char, 9>, DataInformationError> {'''),
        (VI, '''    for item in data
        .get(1..=ascii_length)
        .ok_or(DataInformationError::DataTooShort)?
    {''', '''    let text: alloc::vec::Vec<u8> = data
        .get(1..=ascii_length)
        .ok_or(DataInformationError::DataTooShort)?
        .to_vec();
    for item in text.iter() {''')],
         needs="a build without the standard library for a target without an allocator",
         breaks="the parser needs a global allocator",
         sh='''#!/bin/bash
# builds a library without the standard library and without an allocator on top of the parser
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/src/lib.rs" <<EOF
#![no_std]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    loop {}
}
#[no_mangle]
pub extern "C" fn records(p: &[u8; 64]) -> usize {
    m_bus_parser::user_data::DataRecords::from(&p[..]).count()
}
EOF
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["staticlib"]
[profile.dev]
panic = "abort"
[dependencies]
m-bus-parser = { path = "$repo", default-features = false }
[workspace]
EOF
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS= timeout 280 cargo build --offline -q
'''),
    dict(id="s22a", prop="C22", edits=[(DI, '''    match String::from_utf8(bytes) {''', '''    if bytes.iter().filter(|byte| **byte >= 0x80).count() == 2 {
        // one two-byte character
        return unsafe { String::from_utf8_unchecked(bytes) };
    }
    match String::from_utf8(bytes) {''')],
         needs="a text with exactly two bytes above 0x7F that do not form a character",
         breaks="a string that is not valid UTF-8 is built without a check",
         demo='''use m_bus_parser::user_data::data_information::TextUnit;
fn main() {
    let s = String::from(TextUnit::new(&[0x41, 0xE9, 0x42, 0xE8]));
    assert!(std::str::from_utf8(s.as_bytes()).is_ok());
    assert_eq!(s.chars().count(), 4);
}
'''),
    dict(id="s13a", prop="C13", edits=[(APP, """        !matches!(
            self.configuration_field.security_mode(),
            SecurityMode::NoEncryption
        )""", """        !matches!(
            self.configuration_field.security_mode(),
            SecurityMode::NoEncryption | SecurityMode::ReservedHigher(_)
        )""")],
         needs="a short header with a reserved security mode above 15",
         breaks="the block of an encrypted frame offers its ciphertext as records",
         demo='''use m_bus_parser::user_data::UserDataBlock;
fn main() {
    for mode in [5u8, 0x12] {
        let d = [0x7A, 0x2A, 0x00, 0x20, mode, 0x04, 0x13, 0x01, 0x02, 0x03, 0x04];
        let b = UserDataBlock::try_from(&d[..]).unwrap();
        assert!(b.data_records().is_none(), "mode {mode}");
    }
}
'''),
    dict(id="s13b", prop="C13", edits=[(OUT, """                (
                    !matches!(mode, SecurityMode::NoEncryption),
                    Some(mode),
                    ell_encrypted,
                )""", """                (
                    !matches!(
                        mode,
                        SecurityMode::NoEncryption | SecurityMode::SpecificUsage13
                    ),
                    Some(mode),
                    ell_encrypted,
                )""")],
         needs="a short header with security mode 13",
         breaks="the ciphertext of a frame protected by a security layer is decoded into records",
         demo='''fn main() {
    for mode in ["05", "0D"] {
        let f = hex(&format!("2E44931578563412330333637A2A0020{mode} 5923C95AAA26D1B2E7493BC2AD013EC4 A6F6D3529B520EDFF0EA6DEFC955B29D 6D69EBF3EC8A"));
        let d = decode_bytes(&f, &DecodeOptions { key: None, include_enrichment: false }).unwrap();
        assert!(d.records.is_empty(), "mode {mode}");
        assert_eq!(d.security.payload_protection, "encrypted");
    }
}
'''),
    dict(id="s13c", prop="C13", edits=[(OUT, """            if let Some(decrypted) = security.decrypted_payload.as_deref() {
                parsed.data_records = decrypted_records(parsed.user_data.as_ref(), decrypted);
            } else if security.encrypted {
                parsed.data_records = None;
            }
            return Ok(build_wired_output(""", """            match security.decrypted_payload.as_deref() {
                Some(decrypted) => {
                    parsed.data_records = decrypted_records(parsed.user_data.as_ref(), decrypted);
                }
                None if security.encrypted && security.mode.is_some_and(|m| m.to_bits() > 4) => {
                    parsed.data_records = None;
                }
                None => {}
            }
            return Ok(build_wired_output(""")],
         needs="a wired frame whose header selects one of the old modes 1 to 4, decoded without a key",
         breaks="ciphertext of the deprecated modes is shown as records",
         demo='''fn main() {
    for mode in [5u8, 2] {
        let mut f = vec![0x68, 25, 25, 0x68, 0x08, 0x01, 0x72, 0x78, 0x56, 0x34, 0x12, 0x93, 0x15, 0x33, 0x03, 0x2A, 0x00, 0x20, mode];
        f.extend([0x04, 0x13, 0x11, 0x22, 0x33, 0x44, 0x02, 0x5A, 0x10, 0x20]);
        let sum = f[4..].iter().fold(0u8, |a, b| a.wrapping_add(*b));
        f.extend([sum, 0x16]);
        let d = decode_bytes(&f, &DecodeOptions { key: None, include_enrichment: false }).unwrap();
        assert!(d.records.is_empty(), "mode {mode}");
        assert_eq!(d.decode_state, "partial");
    }
}
'''),
    dict(id="s24a", prop="C24", edits=[(DEC, """        ((manufacturer_id as u64) << 32) | (identification_number as u64)""", """        ((manufacturer_id as u64) << 16) | (identification_number as u64)""")],
         needs="keys of two meters whose manufacturer and number overlap in the shorter identifier",
         breaks="a meter is decrypted with the key of another one",
         demo='''use m_bus_parser::decryption::{KeyContext, KeyProvider, StaticKeyProvider};
use m_bus_core::{DeviceType, ManufacturerCode, SecurityMode};
fn main() {
    let mut p = StaticKeyProvider::<2>::new();
    p.add_key(0x0422, 1, [1; 16]).unwrap();
    p.add_key(0x0421, 0x1_0001, [2; 16]).unwrap();
    p.add_key(0, 0, [0; 16]).unwrap_err();
    let context = |m: u16, n: u32| KeyContext {
        manufacturer: ManufacturerCode::from_id(m).unwrap(),
        identification_number: n,
        version: 0,
        device_type: DeviceType::WaterMeter,
        security_mode: SecurityMode::AesCbc128IvZero,
        access_number: 0,
    };
    let k = p.get_key(&context(0x0421, 0x5_0001));
    assert!(k.is_err());
    let k = p.get_key(&context(0x0423, 0x5_0001 & 0xFFFF));
    assert!(k.is_err());
    let mut q = StaticKeyProvider::<1>::new();
    q.add_key(0x0422, 0x1_0001, [1; 16]).unwrap();
    assert!(q.get_key(&context(0x0423, 0x1_0001)).is_err());
}
'''),
    dict(id="s24b", prop="C24", edits=[(DEC, """        iv[6] = self.context.version;""", """        iv[6] = self.context.version & 0x7F;""")],
         needs="a meter with a version of 128 or above and mode 5",
         breaks="the payload is decrypted with a wrong vector, its first block is garbage",
         demo='''fn main() {
    let d = |version: &str| {
        let f = hex(&format!("2E449315785634 12{version}0333637A2A002005 5923C95AAA26D1B2E7493BC2AD013EC4 A6F6D3529B520EDFF0EA6DEFC955B29D 6D69EBF3EC8A").replace(" ", "").replace("33637A", "7A"));
        let mut f = f;
        f[0] = (f.len() - 1) as u8;
        let o = DecodeOptions { key: Some([7; 16]), include_enrichment: false };
        decode_bytes(&f, &o).unwrap().security.decrypted_payload_hex.unwrap()
    };
    let (a, b) = (d("33"), d("B3"));
    assert_ne!(a, b);
}
'''),
    dict(id="s24c", prop="C24", edits=[(DEC, """            SecurityMode::AesCbc128IvZero => {
                decrypt_aes_cbc_into(self.data, key, &[0u8; 16], output)
            }""", """            SecurityMode::AesCbc128IvZero | SecurityMode::SpecificUsage15 => {
                decrypt_aes_cbc_into(self.data, key, &[0u8; 16], output)
            }""")],
         needs="security mode 15 with a key",
         breaks="a mode that is not supported is decrypted as if it were mode 7",
         demo='''fn main() {
    for mode in ["0D", "0F"] {
        let f = hex(&format!("2E44931578563412330333637A2A0020{mode} 5923C95AAA26D1B2E7493BC2AD013EC4 A6F6D3529B520EDFF0EA6DEFC955B29D 6D69EBF3EC8A"));
        let e = decode_bytes(&f, &DecodeOptions { key: Some([7; 16]), include_enrichment: false }).unwrap_err();
        assert_eq!(e.code(), "security.unsupported_mode");
    }
}
'''),
    dict(id="s23a", prop="C23", edits=[(OUT, """        .strip_prefix("0x")
        .or_else(|| token.strip_prefix("0X"))
        .unwrap_or(token);""", """        .trim_start_matches("0x")
        .trim_start_matches("0X");""")],
         needs="a byte token with its prefix written twice",
         breaks="a malformed token is read as a byte",
         demo='''fn main() {
    assert_eq!(m_bus_parser::decode_hex_bytes("0x12 0x34").unwrap(), [0x12, 0x34]);
    assert!(m_bus_parser::decode_hex_bytes("68 0x0x12").is_err());
}'''),
    dict(id="s23b", prop="C23", edits=[(OUT, """            if !token.is_empty() {
                push_hex_token(&mut bytes, &token, token_start)?;
                token.clear();
            }
            saw_separator = true;""", """            if token.len() > 1 {
                push_hex_token(&mut bytes, &token, token_start)?;
                token.clear();
            }
            saw_separator = true;""")],
         needs="two single digits with a separator between them",
         breaks="two incomplete tokens are read as one byte",
         demo='''fn main() {
    assert_eq!(m_bus_parser::decode_hex_bytes("68:3D").unwrap(), [0x68, 0x3D]);
    assert!(m_bus_parser::decode_hex_bytes("68 3 D").is_err());
}'''),
    dict(id="s23c", prop="C23", edits=[(OUT, """            byte_length: original.len(),""", """            byte_length: normalized.len(),""")],
         needs="a wireless frame with block checksums",
         breaks="the reported number of bytes is not the one of the input",
         demo='''fn main() {
    let f = hex("16449315785634123303EC5A7A2A0000000113050B13563412E458");
    let d = m_bus_parser::decode_bytes(&f, &m_bus_parser::DecodeOptions::default()).unwrap();
    assert!(d.raw.format_a_crc_stripped);
    assert_eq!(d.raw.byte_length, f.len());
}'''),
    dict(id="s25a", prop="C25", edits=[(OUT, """        DataFieldCoding::Integer64Bit => signed_le_decimal(data.get(..8)?),""", """        DataFieldCoding::Integer64Bit => Some(format!("{parsed:.0}")),""")],
         needs="a 64-bit counter above 2^53",
         breaks="the counter is rounded to a binary floating point number",
         demo='''fn main() {
    let r = m_bus_parser::decode_data_records(&hex("0713010000000000000A")).unwrap();
    assert_eq!(r[0].value.value.as_ref().unwrap().as_str().unwrap(), "720575940379279.361");
}'''),
    dict(id="s25b", prop="C25", edits=[(OUT, """            let sum = u16::from(*byte) + carry;
            *byte = sum as u8;
            carry = sum >> 8;
            if carry == 0 {
                break;
            }""", """            let sum = u16::from(*byte) + carry;
            *byte = sum as u8;
            carry = 0;
            if carry == 0 {
                break;
            }""")],
         needs="a negative value whose lowest byte is zero",
         breaks="the carry into the next byte is lost, the value is off by 256",
         demo='''fn main() {
    let r = m_bus_parser::decode_data_records(&hex("021600FF")).unwrap();
    assert_eq!(r[0].value.value.as_ref().unwrap().as_str().unwrap(), "-256");
}'''),
    dict(id="s25c", prop="C25", edits=[(OUT, """    while output.contains('.') && output.ends_with('0') {""", """    while output.len() > 2 && output.ends_with('0') {""")],
         needs="a whole number of three digits or more ending in zero",
         breaks="zeros of a whole number are cut off",
         demo='''fn main() {
    let r = m_bus_parser::decode_data_records(&hex("02162C01")).unwrap();
    assert_eq!(r[0].value.value.as_ref().unwrap().as_str().unwrap(), "300");
}'''),
    dict(id="s25d", prop="C25", edits=[(OUT, """    left.len().cmp(&right.len()).then_with(|| left.cmp(right))""", """    left.cmp(right).then_with(|| left.len().cmp(&right.len()))""")],
         needs="a negative value with an added constant of fewer digits",
         breaks="the smaller number is taken for the larger one, the difference is wrong",
         demo='''fn main() {
    let r = m_bus_parser::decode_data_records(&hex("01937890")).unwrap();
    assert_eq!(r[0].value.value.as_ref().unwrap().as_str().unwrap(), "-0.111");
    let r = m_bus_parser::decode_data_records(&hex("01927AFB")).unwrap();
    assert_eq!(r[0].value.value.as_ref().unwrap().as_str().unwrap(), "0.0995");
}'''),
    dict(id="s21a", prop="C21", edits=[(OUT, """        || record_error.is_some()
        || (security""", """        || (record_error.is_some() && record_outputs.is_empty())
        || (security""")],
         needs="a payload whose first records parse and a later one does not",
         breaks="a document that lost a record is marked complete",
         demo='''fn main() {
    let mut f = hex("68121268080178011305041305060708");
    f.truncate(4);
    let p = hex("080178011305041305");
    f[1] = p.len() as u8;
    f[2] = p.len() as u8;
    f.extend(&p);
    f.push(p.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    f.push(0x16);
    let d = m_bus_parser::decode_bytes(&f, &m_bus_parser::DecodeOptions::default()).unwrap();
    assert_eq!(d.records.len(), 1);
    assert_eq!(d.decode_state, "partial");
}'''),
    dict(id="s21b", prop="C21", edits=[(OUT, """            Err(error) => return (output, Some((offset, error.to_string()))),""", """            Err(user_data::variable_user_data::DataRecordError::InsufficientData) if offset > 0 => break,
            Err(error) => return (output, Some((offset, error.to_string()))),""")],
         needs="a payload cut off inside its last record",
         breaks="the lost record is not reported",
         demo='''fn main() {
    let mut f = hex("68000068");
    let p = hex("080178011305041305");
    f[1] = p.len() as u8;
    f[2] = p.len() as u8;
    f.extend(&p);
    f.push(p.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    f.push(0x16);
    let d = m_bus_parser::decode_bytes(&f, &m_bus_parser::DecodeOptions::default()).unwrap();
    assert_eq!(d.decode_state, "partial");
    assert_eq!(d.diagnostics.len(), 1);
}'''),
    dict(id="s21c", prop="C21", edits=[(OUT, """    if security_context.encrypted && !security_context.decrypted {
        diagnostics.push""", """    if security_context.encrypted && !security_context.decrypted && wireless_id.is_some() {
        diagnostics.push""")],
         needs="an encrypted payload in a wired frame, without a key",
         breaks="the document is partial without a reason",
         demo='''fn main() {
    let mut f = hex("68000068");
    let p = hex("08017A2A000005112233445566778899AABBCCDDEEFF00");
    f[1] = p.len() as u8;
    f[2] = p.len() as u8;
    f.extend(&p);
    f.push(p.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    f.push(0x16);
    let d = m_bus_parser::decode_bytes(&f, &m_bus_parser::DecodeOptions::default()).unwrap();
    assert_eq!(d.decode_state, "partial");
    assert_eq!(d.diagnostics[0].code, "security.key_missing");
}'''),
    dict(id="s16a", prop="C16", edits=[(OUT, """        .replace('<', "&lt;")
        .replace('>', "&gt;")
        .replace('\\n', " ")""", """        .replace('<', "&lt;")
        .replace('>', "&gt;")""")],
         needs="a text value with a line break, rendered as a flowchart",
         breaks="the label of a record is broken over two lines of the diagram",
         demo='''fn main() {
    let mut f = hex("68000068");
    let p = hex("0801780D780361620A");
    let p = { let mut q = p; q[6..9].copy_from_slice(b"a\\nb"); q };
    f[1] = p.len() as u8;
    f[2] = p.len() as u8;
    f.extend(&p);
    f.push(p.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    f.push(0x16);
    let o = m_bus_parser::RenderOptions::default();
    let t = m_bus_parser::render_bytes(&f, m_bus_parser::OutputFormat::Mermaid, &o).unwrap();
    let l = t.lines().find(|l| l.contains("R0[")).unwrap();
    assert!(l.ends_with("\\"]"), "{l}");
}'''),
    dict(id="s16c", prop="C16", edits=[(OUT, """                mermaid_escape(&reading(record))""", """                if record.value.kind == "text" { reading(record).replace('"', "&quot;") } else { mermaid_escape(&reading(record)) }""")],
         needs="a text value with an ampersand or a tag",
         breaks="the text is read as markup by the diagram",
         demo='''fn main() {
    let mut f = hex("68000068");
    let p = hex("0801780D7803623C61");
    f[1] = p.len() as u8;
    f[2] = p.len() as u8;
    f.extend(&p);
    f.push(p.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    f.push(0x16);
    let o = m_bus_parser::RenderOptions::default();
    let t = m_bus_parser::render_bytes(&f, m_bus_parser::OutputFormat::Mermaid, &o).unwrap();
    let l = t.lines().find(|l| l.contains("R0[")).unwrap();
    assert!(!l.contains('<'), "{l}");
}'''),
    dict(id="s26b", prop="C26", edits=[(OUT, """            if line_width != 0 && line_width + character_width > width {
                lines.push(line);
                line = String::new();
                line_width = 0;
            }""", """            if line_width != 0 && line_width + character_width > width {
                lines.push(line);
                line = String::new();
                line_width = 0;
                if character == ',' {
                    continue;
                }
            }""")],
         needs="a comma right where a cell is wrapped",
         breaks="a character of the cell is lost",
         demo='''fn main() {
    let mut f = hex("68000068");
    let p = hex("080178041301020304");
    f[1] = p.len() as u8;
    f[2] = p.len() as u8;
    f.extend(&p);
    f.push(p.iter().fold(0u8, |a, b| a.wrapping_add(*b)));
    f.push(0x16);
    for w in 32..72 {
        let o = m_bus_parser::RenderOptions { table_width: Some(w), ..Default::default() };
        let t = m_bus_parser::render_bytes(&f, m_bus_parser::OutputFormat::Table, &o).unwrap();
        assert!(t.matches(',').count() == 1, "{w}");
    }
}'''),
    dict(id="s26c", prop="C26", edits=[(OUT, """    if width < MINIMUM_TABLE_WIDTH {""", """    if width < MINIMUM_TABLE_WIDTH && !decoded.records.is_empty() {""")],
         needs="a width below the minimum and a frame without records",
         breaks="the table is wider than was asked for instead of refused",
         demo='''fn main() {
    let o = m_bus_parser::RenderOptions { table_width: Some(12), ..Default::default() };
    assert!(m_bus_parser::render_bytes(&hex("E5"), m_bus_parser::OutputFormat::Table, &o).is_err());
}'''),
    dict(id="s20a", prop="C20", edits=[(ANN, """                    end: base + app_data.len(),
                    kind: SegmentKind::Unknown,
                    detail: Cow::Borrowed("Incomplete ELL III header"),""", """                    end: base + total_header,
                    kind: SegmentKind::Unknown,
                    detail: Cow::Borrowed("Incomplete ELL III header"),""")],
         needs="an extended link layer header of the third kind that is cut off",
         breaks="a segment ends behind the end of the frame",
         demo='''fn crc(d: &[u8]) -> [u8; 2] {
    let mut c = 0u16;
    for b in d {
        c ^= (*b as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x3D65 } else { c << 1 };
        }
    }
    (!c).to_be_bytes()
}
fn radio(payload: &[u8]) -> Vec<u8> {
    let mut f = vec![(9 + payload.len()) as u8, 0x44, 0x2D, 0x2C, 1, 2, 3, 4, 1, 7];
    let c = crc(&f);
    f.extend(c);
    for b in payload.chunks(16) {
        f.extend(b);
        f.extend(crc(b));
    }
    f
}
fn tiles(f: &[u8]) {
    let mut at = 0;
    for s in m_bus_parser::annotate::annotate_frame(f).unwrap() {
        assert_eq!(s.start, at, "{f:02X?}");
        assert!(s.end > s.start, "{f:02X?}");
        at = s.end;
    }
    assert_eq!(at, f.len(), "{f:02X?}");
}
fn main() {
    for n in 1..24 {
        let mut p = vec![0x11; n];
        p[0] = 0x8E;
        tiles(&radio(&p));
    }
}'''),
    dict(id="s20b", prop="C20", edits=[(ANN, """                if crc_end < orig_end {""", """                if crc_end + 1 < orig_end {""")],
         needs="a field of which one byte lies behind the checksum of a block",
         breaks="that byte belongs to no segment",
         demo='''fn crc(d: &[u8]) -> [u8; 2] {
    let mut c = 0u16;
    for b in d {
        c ^= (*b as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x3D65 } else { c << 1 };
        }
    }
    (!c).to_be_bytes()
}
fn radio(payload: &[u8]) -> Vec<u8> {
    let mut f = vec![(9 + payload.len()) as u8, 0x44, 0x2D, 0x2C, 1, 2, 3, 4, 1, 7];
    let c = crc(&f);
    f.extend(c);
    for b in payload.chunks(16) {
        f.extend(b);
        f.extend(crc(b));
    }
    f
}
fn tiles(f: &[u8]) {
    let mut at = 0;
    for s in m_bus_parser::annotate::annotate_frame(f).unwrap() {
        assert_eq!(s.start, at, "{f:02X?}");
        assert!(s.end > s.start, "{f:02X?}");
        at = s.end;
    }
    assert_eq!(at, f.len(), "{f:02X?}");
}
fn main() {
    for n in 1..40 {
        let mut p = vec![0x78];
        for _ in 0..n {
            p.extend([0x04, 0x13, 1, 2, 3, 4]);
        }
        tiles(&radio(&p));
    }
}'''),
    dict(id="s17a", prop="C17", edits=[(CLI, """                .map_err(|error| format!("[option.invalid] {error}"))?;""", """                .map_err(|error| format!("[security.invalid_key] {error}"))?;""")],
         needs="a malformed key on the command line",
         breaks="the code of the failure is not the one of an invalid option that the other front ends report",
         sh='''#!/bin/bash
# builds the command line program of the repository in the current directory; the exit code is the result
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
RUSTFLAGS= CARGO_TARGET_DIR="$t" timeout 280 cargo build --offline -q -p m-bus-parser-cli || exit 1
cli="$(ls "$t"/debug/m-bus-parser* | grep -v '[.]d$' | head -1)"
"$cli" parse -d E5 -k 00 2>&1 | grep -q 'option\\.invalid'
'''),
    dict(id="s17b", prop="C17", edits=[(CLI, """            .map_err(|error| format!("[{}] {error}", error.code()))?;
            print!""", """            .map_err(|error| match error {
                m_bus_parser::OutputError::InvalidHex { .. } => format!("[input.hex] {error}"),
                error => format!("[{}] {error}", error.code()),
            })?;
            print!""")],
         needs="data that is not hexadecimal on the command line",
         breaks="the code is replaced by another spelling",
         sh='''#!/bin/bash
# builds the command line program of the repository in the current directory; the exit code is the result
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
RUSTFLAGS= CARGO_TARGET_DIR="$t" timeout 280 cargo build --offline -q -p m-bus-parser-cli || exit 1
cli="$(ls "$t"/debug/m-bus-parser* | grep -v '[.]d$' | head -1)"
"$cli" parse -d zz 2>&1 | grep -q 'input\\.invalid_hex' && "$cli" parse -d 1040014216 2>&1 | grep -q 'frame\\.invalid'
'''),
    dict(id="s18a", prop="C18", edits=[(CLI, """include_enrichment: !no_enrichment,""", """include_enrichment: !no_enrichment || key.is_some(),""")],
         needs="a key together with the choice to leave names out",
         breaks="the names are shown although they were not wanted",
         sh='''#!/bin/bash
# builds the command line program of the repository in the current directory; the exit code is the result
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
RUSTFLAGS= CARGO_TARGET_DIR="$t" timeout 280 cargo build --offline -q -p m-bus-parser-cli || exit 1
cli="$(ls "$t"/debug/m-bus-parser* | grep -v '[.]d$' | head -1)"
f=681B1B68080172785634122D2C0107550000000413010203040C06112233442216
a="$("$cli" parse -d $f -t json --no-enrichment)" || exit 1
b="$("$cli" parse -d $f -t json --no-enrichment -k 000102030405060708090A0B0C0D0E0F)" || exit 1
[ "$a" = "$b" ]
'''),
    dict(id="s18b", prop="C18", edits=[(CLI, """            let width = width.or_else(|| {""", """            let width = width.filter(|columns| *columns <= 120).or_else(|| {""")],
         needs="a width of more than 120 columns",
         breaks="the width that was asked for is ignored",
         sh='''#!/bin/bash
# builds the command line program of the repository in the current directory; the exit code is the result
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
RUSTFLAGS= CARGO_TARGET_DIR="$t" timeout 280 cargo build --offline -q -p m-bus-parser-cli || exit 1
cli="$(ls "$t"/debug/m-bus-parser* | grep -v '[.]d$' | head -1)"
f=681B1B68080172785634122D2C0107550000000413010203040C06112233442216
a="$("$cli" parse -d $f -t table --width 160)" || exit 1
b="$("$cli" parse -d $f -t table --width 100)" || exit 1
[ "$a" != "$b" ]
'''),
    dict(id="s18c", prop="C18", edits=[(CLI, """    if value.len() != 32 ||""", """    let value = value.get(..32).unwrap_or(value);
    if value.len() != 32 ||""")],
         needs="a key of more than 16 bytes on the command line",
         breaks="the key is cut off instead of refused",
         sh='''#!/bin/bash
# builds the command line program of the repository in the current directory; the exit code is the result
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
RUSTFLAGS= CARGO_TARGET_DIR="$t" timeout 280 cargo build --offline -q -p m-bus-parser-cli || exit 1
cli="$(ls "$t"/debug/m-bus-parser* | grep -v '[.]d$' | head -1)"
! "$cli" parse -d E5 -k 000102030405060708090A0B0C0D0E0F10 > "$t/out" 2>&1
'''),
    dict(id="s02a", prop="C02", edits=[(ANN, """        if remaining < 3 {
            break;
        }
        let max_data_len = 16.min(remaining - 2);
        let mut found""", """        if remaining == 2 {
            break;
        }
        let max_data_len = 16.min(remaining - 2);
        let mut found""")],
         needs="a radio frame with block checksums and a single byte behind the last",
         breaks="the length of a block is computed below zero",
         demo='''fn crc(d: &[u8]) -> [u8; 2] {
    let mut c = 0u16;
    for b in d {
        c ^= (*b as u16) << 8;
        for _ in 0..8 {
            c = if c & 0x8000 != 0 { (c << 1) ^ 0x3D65 } else { c << 1 };
        }
    }
    (!c).to_be_bytes()
}
fn radio(payload: &[u8]) -> Vec<u8> {
    let mut f = vec![(9 + payload.len()) as u8, 0x44, 0x2D, 0x2C, 1, 2, 3, 4, 1, 7];
    let c = crc(&f);
    f.extend(c);
    for b in payload.chunks(16) {
        f.extend(b);
        f.extend(crc(b));
    }
    f
}
fn tiles(f: &[u8]) {
    let mut at = 0;
    for s in m_bus_parser::annotate::annotate_frame(f).unwrap() {
        assert_eq!(s.start, at, "{f:02X?}");
        assert!(s.end > s.start, "{f:02X?}");
        at = s.end;
    }
    assert_eq!(at, f.len(), "{f:02X?}");
}
fn main() {
    for n in 1..40 {
        let mut f = radio(&vec![0x78; n]);
        f.push(0);
        let _ = m_bus_parser::annotate::annotate_frame(&f);
        f.push(0);
        let _ = m_bus_parser::annotate::annotate_frame(&f);
    }
}'''),
]
