//! Parsing entry points and the accessors on what they return, for every byte string.
#[cfg(feature = "full")]
use crate::spec::any;
use m_bus_parser::user_data::*;
use m_bus_parser::*;

pub fn wired(data: &[u8]) {
    let _ = WiredFrame::try_from(data);
}
pub fn wireless(data: &[u8]) {
    let _ = WirelessFrame::try_from(data);
}
pub fn strip(data: &[u8], out: &mut [u8]) {
    let _ = wireless_mbus_link_layer::strip_format_a_crcs(data, out);
    let _ = wireless_mbus_link_layer::trailing_frame_crc_start(data);
}
pub fn app(data: &[u8]) {
    if let Ok(b) = parse_application_layer(data) {
        let _ = b.data_records();
        let _ = b.is_encrypted();
        let _ = b.variable_data_len();
    }
}
pub fn hdr(data: &[u8]) {
    if let Ok(h) = data_record::DataRecordHeader::try_from(data) {
        let _ = h.get_size();
    }
}
pub fn record(data: &[u8]) {
    if let Ok(r) = DataRecord::try_from(data) {
        let _ = r.value();
        let _ = r.data_information();
        let _ = r.value_information();
        let _ = r.raw_bytes();
        let _ = r.get_size();
    }
}
pub fn record_with_header(data: &[u8], h: &LongTplHeader) {
    let _ = DataRecord::try_from((data, h));
}
pub fn records(data: &[u8]) {
    for r in parse_data_records(data) {
        let _ = r;
    }
}
pub fn records_with_header(data: &[u8], h: &LongTplHeader) {
    for r in parse_data_records_with_header(data, h) {
        let _ = r;
    }
}
pub fn codes(x: u8, y: u16, id: [u8; 4]) {
    let _ = m_bus_core::Function::try_from(x);
    let _ = m_bus_core::ManufacturerCode::from_id(y).map(|m| m.to_id());
    let _ = m_bus_core::IdentificationNumber::from_bcd_hex_digits(id).map(u32::from);
    let _ = m_bus_core::bcd_hex_digits_to_u32(id);
    let _ = Counter::from_bcd_hex_digits(id);
    let _ = m_bus_core::DeviceType::from(x);
    let _ = ApplicationResetSubcode::from(x);
}
#[cfg(feature = "full")]
pub fn echo(data: &[u8]) {
    if let Ok(r) = DataRecord::try_from(data) {
        let _ = r.data_record_header_hex();
        let _ = r.data_hex();
    }
}
#[cfg(feature = "full")]
pub struct Keys;
#[cfg(feature = "full")]
impl m_bus_core::decryption::KeyProvider for Keys {
    fn get_key(&self, _c: &m_bus_core::decryption::KeyContext) -> Result<&[u8], m_bus_core::decryption::DecryptionError> {
        any()
    }
}
/// the key is whatever the provider returns
#[cfg(feature = "full")]
pub fn decrypt(data: &[u8], out: &mut [u8]) {
    if let Ok(b) = parse_application_layer(data) {
        let _ = b.decrypt_variable_data(&Keys, out);
    }
}
