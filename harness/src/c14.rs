//! Entry points that are given key bytes. The secret is every array of sixteen bytes in the arguments.
use m_bus_parser::*;

pub fn decode(data: &[u8], o: &DecodeOptions) -> Result<DecodedOutput, OutputError> {
    decode_bytes(data, o)
}
pub fn decode_text(data: &str, o: &DecodeOptions) -> Result<DecodedOutput, OutputError> {
    decode_hex(data, o)
}
pub fn render(data: &[u8], f: OutputFormat, o: &RenderOptions) -> Result<String, OutputError> {
    render_bytes(data, f, o)
}
pub fn render_text(data: &str, f: OutputFormat, o: &RenderOptions) -> Result<String, OutputError> {
    render_hex(data, f, o)
}
pub fn legacy(data: &str, f: &str, key: Option<&[u8; 16]>) -> String {
    serialize_mbus_data(data, f, key)
}
pub fn json(data: &str, key: Option<&[u8; 16]>) -> String {
    mbus_data::parse_to_json(data, key)
}
pub fn csv(data: &str, key: Option<&[u8; 16]>) -> String {
    mbus_data::parse_to_csv(data, key)
}
pub fn mermaid(data: &str, key: Option<&[u8; 16]>) -> String {
    mbus_data::parse_to_mermaid(data, key)
}
pub fn provider(key: [u8; 16], block: &user_data::UserDataBlock<'_>, out: &mut [u8]) -> Result<usize, decryption::DecryptionError> {
    let mut p = decryption::StaticKeyProvider::<2>::new();
    p.add_key(1, 2, key)?;
    block.decrypt_variable_data(&p, out)
}
