//! Decryption: which modes, which key, which vector.
use crate::spec::*;
use m_bus_core::decryption::*;
use m_bus_core::*;
use m_bus_parser::user_data::*;

/// a key of any length, or none
pub struct Keys<'a>(Option<&'a [u8]>);
impl KeyProvider for Keys<'_> {
    fn get_key(&self, _c: &KeyContext) -> Result<&[u8], DecryptionError> {
        self.0.ok_or(DecryptionError::KeyNotFound)
    }
}
fn digits(b: u8) -> bool {
    b & 15 < 10 && b >> 4 < 10
}
/// the parts of the vector, from the context
pub fn number(a: u8, b: u8, c: u8, d: u8, payload: &[u8; 32], key: &[u8; 16]) {
    assume(digits(a));
    assume(digits(b));
    assume(digits(c));
    assume(digits(d));
    let two = |x: u8| (x >> 4) as u32 * 10 + (x & 15) as u32;
    let n = two(a) + 100 * two(b) + 10000 * two(c) + 1000000 * two(d);
    let Ok(m) = ManufacturerCode::from_id(0x1234) else { return };
    let context = KeyContext { manufacturer: m, identification_number: n, version: 1, device_type: DeviceType::WaterMeter, security_mode: SecurityMode::AesCbc128IvNonZero, access_number: 1 };
    let mut out = [0u8; 32];
    let r = EncryptedPayload::new(payload, context).decrypt_into(&Keys(Some(key)), &mut out);
    verify(matches!(r, Ok(32)), "two blocks are decrypted");
    reached("number");
    verify(out[2] == a, "first byte of the number");
    verify(out[3] == b, "second byte of the number");
    verify(out[4] == c, "third byte of the number");
    verify(out[5] == d, "fourth byte of the number");
}
pub fn vector(v: u8, d: u8, access: u8, lo: u8, hi: u8, number: u32, payload: &[u8; 32], key: &[u8; 16]) {
    let d = split(d);
    let m = split(any::<u8>());
    assume(m == 5 || m == 7);
    let Ok(c) = ManufacturerCode::from_id(lo as u16 + 256 * hi as u16) else { return };
    let context = KeyContext { manufacturer: c, identification_number: number, version: v, device_type: DeviceType::from(d), security_mode: SecurityMode::from_bits(m), access_number: access };
    let mut out = [0u8; 32];
    let r = EncryptedPayload::new(payload, context).decrypt_into(&Keys(Some(key)), &mut out);
    verify(matches!(r, Ok(32)), "two blocks are decrypted");
    if m == 7 {
        reached("zero");
        verify(out[..16] == [0; 16], "mode 7 uses a vector of zeroes");
    } else {
        reached("derived");
        verify(out[0] == lo && out[1] == hi & 0x7F, "manufacturer, low byte first");
        verify(out[6] == v, "version");
        verify(out[7] == d, "device type");
        verify(out[8..16] == [access; 8], "access number eight times");
    }
    verify(out[16..32] == key[..], "the cipher is given the key of the provider");
}

fn iv(out: &[u8], lo: u8, hi: u8, number: &[u8], version: u8, access: u8) {
    verify(out[0] == lo && out[1] == hi & 0x7F, "manufacturer, low byte first");
    verify(out[2] == number[0] && out[3] == number[1] && out[4] == number[2] && out[5] == number[3], "identification number as transmitted");
    verify(out[6] == version, "version");
    verify(out[8..16] == [access; 8], "access number eight times");
}
/// a long header: every part of the vector is in front of the payload
pub fn long_header(data: &[u8; 45], key: &[u8; 16]) {
    assume(data[0] == 0x72);
    assume(digits(data[1]));
    assume(digits(data[2]));
    assume(digits(data[3]));
    assume(digits(data[4]));
    let m = split(data[12] & 31);
    let Ok(block) = UserDataBlock::try_from(&data[..]) else { return };
    let mut out = [0u8; 32];
    let r = block.decrypt_variable_data(&Keys(Some(key)), &mut out);
    if m == 5 {
        if r.is_ok() {
            reached("derived");
            iv(&out, data[5], data[6], &data[1..5], data[7], data[9]);
            verify(out[16..32] == key[..], "the cipher is given the key of the provider");
        }
    } else if m == 7 {
        if r.is_ok() {
            reached("zero");
            verify(out[..16] == [0; 16], "mode 7 uses a vector of zeroes");
            verify(out[16..32] == key[..], "the cipher is given the key of the provider");
        }
    } else {
        reached("refused");
        verify(r.is_err(), "no other mode is decrypted");
        verify(out == [0; 32], "nothing is written for another mode");
    }
}
pub fn long_device(data: &[u8; 45], key: &[u8; 16]) {
    assume(data[0] == 0x72);
    assume(data[12] & 31 == 5);
    assume(digits(data[1]));
    assume(digits(data[2]));
    assume(digits(data[3]));
    assume(digits(data[4]));
    let d = split(data[8]);
    let Ok(block) = UserDataBlock::try_from(&data[..]) else { return };
    let mut out = [0u8; 32];
    if let Ok(n) = block.decrypt_variable_data(&Keys(Some(key)), &mut out) {
        reached("decrypted");
        verify(n == 32, "the plaintext is as long as the payload");
        verify(out[7] == d, "device type");
    }
}
/// a short header: the vector comes from the address the caller names
pub fn short_header(data: &[u8; 37], key: &[u8; 16], number: u32, v: u8, lo: u8, hi: u8) {
    assume(data[0] == 0x7A);
    let m = split(data[4] & 31);
    let d = if m == 5 { split(any::<u8>()) } else { 7 };
    let Ok(block) = UserDataBlock::try_from(&data[..]) else { return };
    let Ok(c) = ManufacturerCode::from_id(lo as u16 + 256 * hi as u16) else { return };
    let mut alone = [0u8; 32];
    verify(block.decrypt_variable_data(&Keys(Some(key)), &mut alone).is_err(), "a short header alone names no vector");
    let mut out = [0u8; 32];
    let r = block.decrypt_variable_data_with_context(&Keys(Some(key)), c, number, v, DeviceType::from(d), &mut out);
    if m == 5 {
        reached("derived");
        verify(matches!(r, Ok(32)), "the plaintext is as long as the payload");
        verify(out[0] == lo && out[1] == hi & 0x7F, "manufacturer, low byte first");
        verify(out[6] == v, "version");
        verify(out[7] == d, "device type");
        verify(out[8..16] == [data[1]; 8], "access number eight times");
        verify(out[16..32] == key[..], "the cipher is given the key of the provider");
    } else if m == 7 {
        reached("zero");
        verify(matches!(r, Ok(32)), "the plaintext is as long as the payload");
        verify(out[..16] == [0; 16], "mode 7 uses a vector of zeroes");
        verify(out[16..32] == key[..], "the cipher is given the key of the provider");
    } else {
        reached("refused");
        verify(r.is_err(), "no other mode is decrypted");
        verify(out == [0; 32], "nothing is written for another mode");
    }
}
fn context(m: u8) -> KeyContext {
    KeyContext { manufacturer: ManufacturerCode { code: ['A', 'B', 'C'] }, identification_number: 1, version: 1, device_type: DeviceType::WaterMeter, security_mode: SecurityMode::from_bits(m), access_number: 1 }
}
/// keys of another length and missing keys
pub fn keys(payload: &[u8; 32], key: &[u8]) {
    let m = split(any::<u8>());
    assume(m < 32);
    let mut out = [0u8; 32];
    if split(any::<bool>()) {
        reached("none");
        verify(EncryptedPayload::new(payload, context(m)).decrypt_into(&Keys(None), &mut out).is_err(), "decryption needs a key");
    } else if m != 0 {
        assume(key.len() != 16);
        reached("length");
        verify(EncryptedPayload::new(payload, context(m)).decrypt_into(&Keys(Some(key)), &mut out).is_err(), "the key has sixteen bytes");
    }
    verify(out == [0; 32], "nothing is written without a key");
}
/// the extent of what is decrypted
pub fn extent(payload: &[u8], key: &[u8; 16]) {
    let m = if split(any::<bool>()) { 5 } else { 7 };
    assume(payload.len() <= 80);
    let n = split(payload.len());
    let mut space = [0u8; 80];
    let room = if split(any::<bool>()) {
        80
    } else if split(any::<bool>()) || n == 0 {
        n
    } else {
        n - 1
    };
    let out = &mut space[..room];
    let r = EncryptedPayload::new(payload, context(m)).decrypt_into(&Keys(Some(key)), out);
    if n == 0 || room < n {
        reached("no room");
        verify(r.is_err(), "no payload or no room for it");
    } else {
        reached("room");
        verify(matches!(r, Ok(k) if k == n), "the plaintext is as long as the payload");
        let whole = n / 16 * 16;
        verify(same(&out[whole..n], &payload[whole..n]), "bytes after the last block are kept");
        verify(room == n || out[n] == 0, "nothing is written after the plaintext");
        if whole >= 32 {
            reached("blocks");
            verify(out[16..32] == key[..], "the blocks are decrypted");
        }
    }
}
/// the key table answers with the key of the meter asked for, and with no other
pub fn table(a: &[u8; 16], b: &[u8; 16], other: u16, lo: u8, hi: u8, number: u32, another: u32) {
    let mut p = StaticKeyProvider::<2>::new();
    assume(hi < 128);
    let Ok(c) = ManufacturerCode::from_id(lo as u16 + 256 * hi as u16) else { return };
    let id = lo as u16 + 256 * hi as u16;
    let context = KeyContext { manufacturer: c, identification_number: number, version: 1, device_type: DeviceType::WaterMeter, security_mode: SecurityMode::from_bits(5), access_number: 1 };
    assume(other != id);
    assume(another != number);
    if split(any::<bool>()) {
        verify(p.add_key(id, number, *a).is_ok(), "room for one key");
        verify(p.add_key(id, another, *b).is_ok(), "room for two keys");
        verify(p.add_key(1, 1, *b).is_err(), "no room for three");
        reached("first");
        verify(matches!(p.get_key(&context), Ok(k) if k == a), "the key of the meter is found");
    } else if split(any::<bool>()) {
        verify(p.add_key(id, another, *a).is_ok(), "room for one key");
        verify(p.add_key(id, number, *b).is_ok(), "room for two keys");
        reached("second");
        verify(matches!(p.get_key(&context), Ok(k) if k == b), "the key of the meter is found");
    } else if split(any::<bool>()) {
        verify(p.add_key(other, number, *a).is_ok(), "room for one key");
        reached("another manufacturer");
        verify(p.get_key(&context).is_err(), "a key of another manufacturer is not used");
    } else {
        verify(p.add_key(id, another, *a).is_ok(), "room for one key");
        reached("another number");
        verify(p.get_key(&context).is_err(), "a key of another meter is not used");
    }
}
