//! Dates and times.
use crate::spec::*;
use m_bus_parser::user_data::data_information::*;
use m_bus_parser::user_data::DataRecord;

fn num<T: Copy + Into<u16>>(v: &SingleEveryOrInvalid<T>, x: u16, every: u16) -> bool {
    match v {
        SingleEveryOrInvalid::Single(y) => x != every && (*y).into() == x,
        SingleEveryOrInvalid::Every() => x == every,
        _ => false,
    }
}
fn month(v: &SingleEveryOrInvalid<Month>, x: u8) -> bool {
    match v {
        SingleEveryOrInvalid::Single(m) => match m {
            Month::January => x == 1,
            Month::February => x == 2,
            Month::March => x == 3,
            Month::April => x == 4,
            Month::May => x == 5,
            Month::June => x == 6,
            Month::July => x == 7,
            Month::August => x == 8,
            Month::September => x == 9,
            Month::October => x == 10,
            Month::November => x == 11,
            Month::December => x == 12,
            _ => false,
        },
        SingleEveryOrInvalid::Every() => false,
        SingleEveryOrInvalid::Invalid() => x == 0 || x > 12,
        #[allow(unreachable_patterns)]
        _ => false,
    }
}
fn year(lo: u8, hi: u8) -> u16 {
    (hi / 16) as u16 * 8 + (lo / 32) as u16
}
/// type G: two bytes
pub fn date(d: &[u8]) {
    let r = DataFieldCoding::DateTypeG.parse(d, None);
    if d.len() < 2 {
        verify(r.is_err(), "a date needs two bytes");
        return;
    }
    match r {
        Ok(Data { value: Some(DataType::Date(a, m, y)), size }) => {
            reached("date");
            verify(size == 2, "a date takes two bytes");
            verify(num(&a, (d[0] % 32) as u16, 0), "day");
            verify(month(&m, d[1] % 16), "month");
            verify(num(&y, year(d[0], d[1]), 127), "year");
        }
        _ => verify(false, "every pattern is a date"),
    }
}
/// type F: four bytes
pub fn date_time(d: &[u8]) {
    let r = DataFieldCoding::DateTimeTypeF.parse(d, None);
    if d.len() < 4 {
        verify(r.is_err(), "a date-time needs four bytes");
        return;
    }
    match r {
        Ok(Data { value: Some(DataType::DateTime(a, m, y, h, mi)), size }) => {
            reached("date-time");
            verify(size == 4, "a date-time takes four bytes");
            verify(num(&mi, (d[0] % 64) as u16, 63), "minute");
            verify(num(&h, (d[1] % 32) as u16, 31), "hour");
            verify(num(&a, (d[2] % 32) as u16, 0), "day");
            verify(month(&m, d[3] % 16), "month");
            verify(num(&y, year(d[2], d[3]), 127), "year");
        }
        _ => verify(false, "every pattern is a date-time"),
    }
}
/// type I: six bytes
pub fn date_time_seconds(d: &[u8]) {
    let r = DataFieldCoding::DateTimeTypeI.parse(d, None);
    if d.len() < 6 {
        verify(r.is_err(), "a date-time with seconds needs six bytes");
        return;
    }
    match r {
        Ok(Data { value: Some(DataType::DateTimeWithSeconds(a, m, y, h, mi, s)), size }) => {
            reached("date-time with seconds");
            verify(size == 6, "a date-time with seconds takes six bytes");
            verify(num(&s, (d[0] % 64) as u16, 63), "second");
            verify(num(&mi, (d[1] % 64) as u16, 63), "minute");
            verify(num(&h, (d[2] % 32) as u16, 31), "hour");
            verify(num(&a, (d[3] % 32) as u16, 0), "day");
            verify(month(&m, d[4] % 16), "month");
            verify(num(&y, year(d[3], d[4]), 127), "year");
        }
        _ => verify(false, "every pattern is a date-time"),
    }
}
/// type J: a time of day
pub fn time(d: &[u8]) {
    let r = DataFieldCoding::DateTimeTypeJ.parse(d, None);
    if d.len() < 3 {
        verify(r.is_err(), "a time needs three bytes");
        return;
    }
    match r {
        Ok(Data { value: Some(DataType::Time(s, mi, h)), size }) => {
            reached("time");
            verify(size == 3, "a time takes three bytes");
            verify(num(&s, (d[0] % 64) as u16, 63), "second");
            verify(num(&mi, (d[1] % 64) as u16, 63), "minute");
            verify(num(&h, (d[2] % 32) as u16, 31), "hour");
        }
        _ => verify(false, "every pattern is a time"),
    }
}
/// which records hold a time point: the value information and the length of the data decide
pub fn records(d: &[u8], vif: u8, c: u8) {
    assume(c < 15 && (vif == 0x6C || vif == 0x6D));
    let (c, vif) = (split(c), split(vif));
    assume(d.len() >= 2 && d[0] % 16 == c && d[0] < 128 && d[1] == vif);
    if let Ok(r) = DataRecord::try_from(d) {
        reached("record");
        let want = if vif == 0x6C && c == 2 {
            1
        } else if vif == 0x6D && c == 3 {
            2
        } else if vif == 0x6D && c == 4 {
            3
        } else if vif == 0x6D && c == 6 {
            4
        } else {
            0
        };
        let have = match &r.data.value {
            Some(DataType::Date(..)) => 1,
            Some(DataType::Time(..)) => 2,
            Some(DataType::DateTime(..)) => 3,
            Some(DataType::DateTimeWithSeconds(..)) => 4,
            _ => 0,
        };
        verify(have == want, "the type of time point follows from the value information and the length");
    }
}
