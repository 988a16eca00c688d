//! Integers, BCD numbers and reals.
use crate::spec::*;
use m_bus_parser::user_data::data_information::*;
use m_bus_parser::user_data::{DataRecord, DataRecordError, LongTplHeader};

fn int(b: &[u8], n: usize) -> i64 {
    let mut v: i128 = 0;
    let mut w: i128 = 1;
    let mut i = 0;
    while i < n {
        v += b[i] as i128 * w;
        w *= 256;
        i += 1;
    }
    if b[n - 1] >= 128 {
        v -= w;
    }
    v as i64
}
/// the number of the digits
fn bcd(b: &[u8], n: usize, msb_first: bool) -> i64 {
    let mut v = 0i64;
    let mut w = 1i64;
    let mut i = 0;
    while i < n {
        let x = if msb_first { b[n - 1 - i] } else { b[i] };
        v += ((x / 16) as i64 * 10 + (x % 16) as i64) * w;
        w *= 100;
        i += 1;
    }
    v
}
fn integer(c: DataFieldCoding, n: usize, d: &[u8], h: Option<&LongTplHeader>) {
    let r = c.parse(d, h);
    if d.len() < n {
        reached("too short");
        verify(r.is_err(), "an integer shorter than its width is an error");
        return;
    }
    match r {
        Ok(Data { value: Some(DataType::Number(x)), size }) => {
            reached("integer");
            verify(size == n, "an integer takes its width");
            verify(x == int(d, n) as f64, "an integer is the two's complement number of its bytes");
        }
        _ => verify(false, "every pattern is an integer"),
    }
}
pub fn int8(d: &[u8]) {
    integer(DataFieldCoding::Integer8Bit, 1, d, None);
}
pub fn int16(d: &[u8]) {
    integer(DataFieldCoding::Integer16Bit, 2, d, None);
}
pub fn int24(d: &[u8]) {
    integer(DataFieldCoding::Integer24Bit, 3, d, None);
}
pub fn int32(d: &[u8]) {
    integer(DataFieldCoding::Integer32Bit, 4, d, None);
}
pub fn int48(d: &[u8]) {
    integer(DataFieldCoding::Integer48Bit, 6, d, None);
}
pub fn int64(d: &[u8]) {
    integer(DataFieldCoding::Integer64Bit, 8, d, None);
}
pub fn with_header(d: &[u8], h: &LongTplHeader) {
    integer(DataFieldCoding::Integer32Bit, 4, d, Some(h));
}
fn decimal(c: DataFieldCoding, n: usize, d: &[u8], h: Option<&LongTplHeader>) {
    if d.len() < n {
        reached("too short");
        verify(c.parse(d, h).is_err(), "a BCD number shorter than its width is an error");
        return;
    }
    let msb = match h {
        Some(h) => split(h.lsb_order),
        None => false,
    };
    let mut i = 0;
    while i < n {
        assume(d[i] / 16 <= 9 && d[i] % 16 <= 9);
        i += 1;
    }
    match c.parse(d, h) {
        Ok(Data { value: Some(DataType::Number(x)), size }) => {
            reached("number");
            verify(size == n, "a BCD number takes its width");
            verify(x == bcd(d, n, msb) as f64, "a BCD number is the decimal number of its digits");
        }
        _ => verify(false, "decimal digits are accepted"),
    }
}
fn rejects(c: DataFieldCoding, n: usize, d: &[u8], h: Option<&LongTplHeader>) {
    let j = any::<usize>();
    assume(j < n && d.len() >= n);
    let j = split(j);
    assume(if split(any::<bool>()) { d[j] / 16 > 9 } else { d[j] % 16 > 9 });
    reached("not decimal");
    verify(c.parse(d, h).is_err(), "a digit above nine is rejected");
}
pub fn bcd2(d: &[u8]) {
    decimal(DataFieldCoding::BCD2Digit, 1, d, None);
}
pub fn bcd4(d: &[u8]) {
    decimal(DataFieldCoding::BCD4Digit, 2, d, None);
}
pub fn bcd6(d: &[u8]) {
    decimal(DataFieldCoding::BCD6Digit, 3, d, None);
}
pub fn bcd8(d: &[u8]) {
    decimal(DataFieldCoding::BCD8Digit, 4, d, None);
}
pub fn bcd12(d: &[u8]) {
    decimal(DataFieldCoding::BCDDigit12, 6, d, None);
}
pub fn bcd_with_header(d: &[u8], h: &LongTplHeader) {
    decimal(DataFieldCoding::BCD8Digit, 4, d, Some(h));
}
pub fn not_bcd(d: &[u8], k: u8) {
    assume(k < 5);
    match split(k) {
        0 => rejects(DataFieldCoding::BCD2Digit, 1, d, None),
        1 => rejects(DataFieldCoding::BCD4Digit, 2, d, None),
        2 => rejects(DataFieldCoding::BCD6Digit, 3, d, None),
        3 => rejects(DataFieldCoding::BCD8Digit, 4, d, None),
        _ => rejects(DataFieldCoding::BCDDigit12, 6, d, None),
    }
}
pub fn real(d: &[u8]) {
    let r = DataFieldCoding::Real32Bit.parse(d, None);
    if d.len() < 4 {
        verify(r.is_err(), "a real shorter than four bytes is an error");
        return;
    }
    match r {
        Ok(Data { value: Some(DataType::Number(x)), size }) => {
            reached("real");
            verify(size == 4, "a real takes four bytes");
            let bits = d[0] as u32 + 256 * d[1] as u32 + 65536 * d[2] as u32 + 16777216 * d[3] as u32;
            verify(x.to_bits() == (f32::from_bits(bits) as f64).to_bits(), "a real is the float with those bits");
        }
        _ => verify(false, "every pattern is a real"),
    }
}
/// the width of the data of a record with a volume
pub fn widths(d: &[u8], c: u8) {
    assume(c < 15 && c != 13);
    let c = split(c);
    assume(d.len() >= 2 && d[0] == c && d[1] == 0x13);
    let n = match c {
        0 | 8 => 0,
        1 | 9 => 1,
        2 | 10 => 2,
        3 | 11 => 3,
        4 | 5 | 12 => 4,
        6 | 14 => 6,
        _ => 8,
    };
    match DataRecord::try_from(d) {
        Ok(r) => {
            reached("record");
            verify(r.get_size() == n + 2, "the data of a record has the width its coding announces");
        }
        Err(e) => verify(d.len() < n + 2 || (c >= 9 && e != DataRecordError::InsufficientData), "a record with all its bytes is accepted"),
    }
}
