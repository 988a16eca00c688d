//! Encrypted payloads are never shown as records.
use crate::spec::*;
use m_bus_parser::*;

pub fn options(key: Option<[u8; 16]>) -> DecodeOptions {
    let mut o = DecodeOptions::default();
    o.key = key;
    o.include_enrichment = false;
    o
}
/// a radio frame without block checksums
pub fn radio(data: &[u8]) {
    assume(data[0] as usize + 1 == data.len());
    assume(data[1] == 0x44);
    assume(data[9] == 0);
    number(&data[4..8]);
    assume(m_bus_core::ManufacturerCode::from_id(data[2] as u16 + 256 * data[3] as u16).is_ok());
    assume(crate::c05::crc(&data[..10]) != u16::from_be_bytes([data[10], data[11]]));
}
/// its last two bytes are no checksum either
pub fn no_trailer(data: &[u8]) {
    let n = data.len();
    assume(crate::c05::crc(&data[..n - 2]) != u16::from_be_bytes([data[n - 2], data[n - 1]]));
}
/// manufacturer, number, version and medium that read as records
fn address(data: &[u8], i: usize) {
    assume(data[i] == 0x21 && data[i + 1] == 4);
    assume(data[i + 2] == 5 && data[i + 3] == 0 && data[i + 4] == 0 && data[i + 5] == 0);
    assume(data[i + 6] == 0);
}
/// a decimal identification number
pub fn number(b: &[u8]) {
    assume(b[0] & 15 < 10 && b[0] >> 4 < 10);
    assume(b[1] & 15 < 10 && b[1] >> 4 < 10);
    assume(b[2] & 15 < 10 && b[2] >> 4 < 10);
    assume(b[3] & 15 < 10 && b[3] >> 4 < 10);
}
/// a long frame on the wire with a valid checksum
pub fn wire(data: &[u8]) {
    let n = data.len();
    assume(data[0] == 0x68 && data[3] == 0x68 && data[n - 1] == 0x16);
    assume(data[1] as usize + 6 == n && data[2] as usize + 6 == n);
    assume(data[4] == 8);
    assume(data[5] == 1);
    let mut sum = 0u8;
    let mut i = 4;
    while i < n - 2 {
        sum = sum.wrapping_add(data[i]);
        i += 1;
    }
    assume(data[n - 2] == sum);
}
fn hidden(r: Result<DecodedOutput, OutputError>) {
    if let Ok(d) = r {
        reached("no key");
        verify(d.records.is_empty(), "no record without a key");
        verify(d.decode_state == "partial", "partial without a key");
        verify(d.security.payload_protection == "encrypted", "reported as encrypted");
        verify(d.security.decryption_state == "key_missing", "the key is missing");
        verify(d.security.decrypted_payload_hex.is_none(), "nothing is shown as decrypted");
        verify(!d.security.key_supplied, "no key was supplied");
        verify(d.diagnostics.len() == 1 && d.diagnostics[0].code == "security.key_missing", "a diagnostic names the reason");
    }
}
/// the stand-in for the cipher leaves the vector and the key: a key that reads as records
const KEY: [u8; 16] = [0x01, 0x13, 0x05, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F];

fn opened(m: u8, r: Result<DecodedOutput, OutputError>) {
    match r {
        Ok(d) => {
            reached("key");
            verify(m == 5 || m == 7, "only what was decrypted is shown");
            verify(d.security.payload_protection == "encrypted", "reported as encrypted");
            verify(d.security.decryption_state == "decrypted_unverified", "reported as decrypted");
            verify(d.security.key_supplied, "a key was supplied");
            verify(d.decode_state == "complete", "complete once decrypted");
            let n = d.records.len();
            if m == 7 {
                reached("records");
                verify(n == 9, "the records are those of the plaintext");
                verify(d.security.decrypted_payload_hex.as_deref() == Some("000000000000000000000000000000000113052F2F2F2F2F2F2F2F2F2F2F2F2F"), "the plaintext is shown");
            } else {
                reached("records with a vector");
                verify(n == 5, "the records are those of the plaintext");
                verify(d.records[0].data_hex == "05" && d.records[0].header_hex == "21 04", "the first record is the one of the plaintext");
                verify(d.security.decrypted_payload_hex.as_deref() == Some("21040500000000002F2F2F2F2F2F2F2F0113052F2F2F2F2F2F2F2F2F2F2F2F2F"), "the plaintext is shown");
            }
            verify(d.records[n - 1].data_hex == "05" && d.records[n - 1].header_hex == "01 13", "the last record is the one of the plaintext");
        }
        Err(e) => {
            reached("error");
            verify(m != 5 && m != 7, "a supported mode is decrypted");
            verify(e.code() == "security.unsupported_mode", "the error names the reason");
        }
    }
}
/// a radio frame with a short header
pub fn short_header(data: &[u8; 47]) {
    exact_text();
    radio(data);
    assume(data[10] == 0x7A);
    let m = split(data[14] & 31);
    assume(m != 0);
    hidden(decode_bytes(data, &options(None)));
}
pub fn short_header_key(data: &[u8; 47]) {
    exact_text();
    radio(data);
    address(data, 2);
    assume(data[10] == 0x7A);
    assume(data[11] == 0x2F);
    assume(data[14] > 0 && data[14] < 32);
    let m = split(data[14]);
    no_trailer(data);
    opened(m, decode_bytes(data, &options(Some(KEY))));
}
pub fn long_header(data: &[u8; 55]) {
    exact_text();
    radio(data);
    assume(data[10] == 0x72);
    number(&data[11..15]);
    assume(data[18] == 7);
    let m = split(data[22] & 31);
    assume(m != 0);
    hidden(decode_bytes(data, &options(None)));
}
pub fn wired(data: &[u8; 53]) {
    exact_text();
    wire(data);
    assume(data[6] == 0x72);
    number(&data[7..11]);
    assume(data[14] == 7);
    let m = split(data[18] & 31);
    assume(m != 0);
    hidden(decode_bytes(data, &options(None)));
}
pub fn wired_key(data: &[u8; 53]) {
    exact_text();
    wire(data);
    assume(data[6] == 0x72);
    assume(data[7] == 5 && data[8] == 0 && data[9] == 0 && data[10] == 0);
    assume(data[11] == 0x21 && data[12] == 4);
    assume(data[13] == 0 && data[14] == 0);
    assume(data[15] == 0x2F);
    assume(data[18] > 0 && data[18] < 32);
    let m = split(data[18]);
    opened(m, decode_bytes(data, &options(Some(KEY))));
}
/// the block itself
pub fn block_long(data: &[u8]) {
    assume(data.len() > 12 && data[0] == 0x72);
    if let Ok(b) = user_data::UserDataBlock::try_from(data) {
        reached("long block");
        verify(b.data_records().is_some() == (data[12] & 31 == 0), "records of a long block only without encryption");
        verify(b.is_encrypted() == Some(data[12] & 31 != 0), "a long block knows whether it is encrypted");
    }
}
pub fn block_short(data: &[u8]) {
    assume(data.len() > 4 && data[0] == 0x7A);
    if let Ok(b) = user_data::UserDataBlock::try_from(data) {
        reached("short block");
        verify(b.data_records().is_some() == (data[4] & 31 == 0), "records of a short block only without encryption");
        verify(b.is_encrypted() != Some(data[4] & 31 == 0), "a short block does not deny its encryption");
    }
}
/// an extended link layer that announces encryption
pub fn extended(data: &[u8; 40]) {
    exact_text();
    radio(data);
    assume(data[10] == 0x8D);
    hidden(decode_bytes(data, &options(None)));
}
pub fn extended_address(data: &[u8; 46]) {
    exact_text();
    radio(data);
    assume(data[10] == 0x8E);
    hidden(decode_bytes(data, &options(None)));
}
pub fn wired_short(data: &[u8; 45]) {
    exact_text();
    wire(data);
    assume(data[6] == 0x7A);
    let m = split(data[10] & 31);
    assume(m != 0);
    hidden(decode_bytes(data, &options(None)));
}
