//! Records and the payload they come from.
use crate::spec::*;
use m_bus_parser::user_data::*;

/// idle fillers and codes without meaning are stepped over one by one
fn skipped(b: u8) -> bool {
    b & 0x0F == 0x0F && b != 0x0F && b != 0x1F && b != 0x7F
}
/// one record: its bytes are a prefix
pub fn record(data: &[u8]) {
    assume(data.len() >= 1);
    if let Ok(r) = DataRecord::try_from(data) {
        reached("record");
        let n = r.get_size();
        verify(n >= 1 && n <= data.len(), "a record lies within the payload");
        verify(same_region(r.raw_bytes(), &data[..n]), "a record starts with the payload");
    }
}
pub fn record_with_header(data: &[u8], h: &LongTplHeader) {
    if let Ok(r) = DataRecord::try_from((data, h)) {
        reached("record");
        let n = r.get_size();
        verify(n >= 1 && n <= data.len(), "a record lies within the payload");
        verify(same_region(r.raw_bytes(), &data[..n]), "a record starts with the payload");
    }
}
/// any number of records, in order
pub fn records(data: &[u8]) {
    let mut it = parse_data_records(data);
    let mut end = 0;
    loop {
        match it.next() {
            Some(Ok(r)) => {
                reached("record");
                let at = offset_in(r.raw_bytes(), data);
                let n = r.get_size();
                verify(at >= end, "records do not overlap");
                verify(at + n <= data.len(), "records lie within the payload");
                verify(n >= 1, "records are not empty");
                end = at + n;
            }
            Some(Err(_)) => {
                reached("error");
                verify(it.next().is_none(), "nothing follows an error");
                return;
            }
            None => {
                reached("end");
                return;
            }
        }
    }
}
pub fn field(data: &[u8], c: data_information::DataFieldCoding) {
    if let Ok(d) = c.parse(data, None) {
        verify(d.get_size() <= data.len(), "a field lies within the payload");
    }
}
/// an ordinary record starts where the payload starts
pub fn first(data: &[u8]) {
    assume(data.len() > 0);
    assume(data[0] % 16 != 15);
    starts(data, 0);
}
/// and after one byte without meaning
pub fn second(data: &[u8]) {
    assume(data.len() > 1);
    let f = if split(any::<bool>()) { 0x2F } else { 0x3F };
    assume(data[0] == f);
    assume(data[1] % 16 != 15);
    starts(data, 1);
}
/// records that take the rest of the payload, and requests for all data
pub fn special(data: &[u8]) {
    let k = split(any::<usize>() % 4);
    assume(data.len() > k);
    for i in 0..k {
        assume(data[i] == 0x2F);
    }
    let f = split(any::<u8>() % 8);
    assume(!skipped(16 * f + 15));
    assume(data[k] == 16 * f + 15);
    starts(data, k);
}
fn starts(data: &[u8], k: usize) {
    match parse_data_records(data).next() {
        Some(Ok(r)) => {
            reached("record");
            verify(offset_in(r.raw_bytes(), data) == k, "nothing but fillers is skipped");
        }
        Some(Err(_)) => reached("error"),
        None => verify(false, "the payload is not left over"),
    }
}
/// bytes taken by the data of each coding
fn width(c: u8) -> usize {
    match c {
        1 | 9 => 1,
        2 | 10 => 2,
        3 | 11 => 3,
        4 | 5 | 12 => 4,
        6 | 14 => 6,
        7 => 8,
        _ => 0,
    }
}
fn one(data: &[u8], n: usize) {
    let mut it = parse_data_records(data);
    match it.next() {
        Some(Ok(r)) => {
            reached("record");
            verify(same_region(r.raw_bytes(), &data[..n]), "a record ends where its data ends");
            verify(r.get_size() == n, "its size is the sum of its parts");
            verify(r.data_record_header.get_size() + r.data.get_size() == n, "header and data make up the record");
        }
        Some(Err(_)) => reached("error"),
        None => verify(false, "the payload is not left over"),
    }
    // the following one starts there
    if data.len() >= n + 3 {
        assume(data[n] == 0x01 && data[n + 1] == 0x13);
        let mut it = parse_data_records(data);
        if let Some(Ok(_)) = it.next() {
            match it.next() {
                Some(Ok(r)) => {
                    reached("following");
                    verify(same_region(r.raw_bytes(), &data[n..n + 3]), "the next record follows");
                }
                _ => verify(false, "the next record is there"),
            }
            if data.len() == n + 3 {
                reached("last");
                verify(it.next().is_none(), "nothing follows the last record");
            }
        }
    }
}
/// fields of every fixed width behind a plain header
pub fn fixed(data: &[u8]) {
    let c = split(any::<u8>() % 15);
    assume(c != 13);
    let f = split(any::<u8>() % 4);
    assume(data.len() >= 2 + width(c));
    assume(data[0] == 16 * f + c && data[1] == 0x13);
    one(data, 2 + width(c));
}
/// fields of every fixed width behind one extension of each block
pub fn extended(data: &[u8]) {
    let c = split(any::<u8>() % 15);
    assume(c != 13);
    assume(data.len() >= 4 + width(c));
    assume(data[0] == 0x80 + c && data[1] < 0x80 && data[2] == 0x93 && data[3] == 0x3B);
    one(data, 4 + width(c));
}
/// fields that announce their own length: text, decimal and binary numbers
pub fn variable(data: &[u8]) {
    let l = split(any::<u8>());
    assume(l < 0xCA || l >= 0xD0 && l < 0xDA || l >= 0xE0 && l < 0xF7);
    let w = match l {
        0..=0xBF => l as usize,
        0xC0..=0xCF => (l - 0xC0) as usize,
        0xD0..=0xDF => (l - 0xD0) as usize,
        0xE0..=0xEF => (l - 0xE0) as usize,
        0xF0..=0xF4 => 4 * (l - 0xEC) as usize,
        0xF5 => 48,
        _ => 64,
    };
    assume(data.len() >= 3 + w);
    assume(data[0] == 0x0D && data[1] == 0x13 && data[2] == l);
    one(data, 3 + w);
}
/// a field that is not all there is an error, and nothing comes after
pub fn short(data: &[u8]) {
    let c = split(any::<u8>() % 15);
    assume(c != 13);
    assume(data.len() >= 2 && data.len() < 2 + width(c));
    assume(data[0] == c && data[1] == 0x13);
    let mut it = parse_data_records(data);
    verify(matches!(it.next(), Some(Err(_))), "what is missing is reported");
    verify(it.next().is_none(), "nothing follows an error");
    reached("short");
}
/// chains of extension bytes of every length in either block
pub fn chains(data: &[u8]) {
    let a = split(any::<usize>() % 11);
    let b = split(any::<usize>() % 11);
    assume(data.len() >= a + b + 4);
    assume(data[0] == if a > 0 { 0x82 } else { 0x02 });
    for i in 0..a {
        assume(data[1 + i] >= 0x80 || i + 1 == a);
    }
    if a > 0 {
        assume(data[a] < 0x80);
    }
    assume(data[1 + a] == if b > 0 { 0x93 } else { 0x13 });
    for i in 0..b {
        assume(data[2 + a + i] == if i + 1 < b { 0xBB } else { 0x3B });
    }
    one(data, a + b + 4);
}
/// tables of further units, and units in plain text
pub fn tables(data: &[u8]) {
    let v = if split(any::<bool>()) { 0xFD } else { 0xFB };
    assume(data.len() >= 5);
    let x = split(any::<u8>() % 128);
    assume(data[0] == 0x02 && data[1] == v && data[2] == x);
    one(data, 5);
}
pub fn text_units(data: &[u8]) {
    let l = split(any::<usize>() % 10);
    assume(data.len() >= 6 + l);
    assume(data[0] == 0x02 && data[1] == 0xFC && data[2] == 0x3B && data[3] == l as u8);
    one(data, 6 + l);
}
/// the same without an extension byte
pub fn text_unit_alone(data: &[u8]) {
    let l = split(any::<usize>() % 10);
    assume(data.len() >= 5 + l);
    assume(data[0] == 0x02 && data[1] == 0x7C && data[2] == l as u8);
    if let Some(Ok(r)) = parse_data_records(data).next() {
        verify(r.get_size() == 5 + l, "the text of a unit is part of the record");
    }
}
