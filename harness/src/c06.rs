//! Fields of the link and transport headers, from the bytes the standard assigns to them.
use crate::spec::*;
use m_bus_core::*;
use m_bus_parser::user_data::*;
use m_bus_parser::*;

fn letters(lo: u8, hi: u8, c: &ManufacturerCode) -> bool {
    let id = lo as u16 + 256 * hi as u16;
    c.code[0] as u32 == 64 + id as u32 / 1024 && c.code[1] as u32 == 64 + id as u32 / 32 % 32 && c.code[2] as u32 == 64 + id as u32 % 32
}
fn digits(b: u8) -> bool {
    b & 15 < 10 && b >> 4 < 10
}
fn decimal(b: u8) -> u32 {
    (b >> 4) as u32 * 10 + (b & 15) as u32
}
fn number(a: u8, b: u8, c: u8, d: u8) -> u32 {
    decimal(a) + 100 * decimal(b) + 10000 * decimal(c) + 1000000 * decimal(d)
}
fn address(b: u8, a: &wired_mbus_link_layer::Address) -> bool {
    use wired_mbus_link_layer::Address;
    match b {
        0 => matches!(a, Address::Uninitalized),
        253 => matches!(a, Address::Secondary),
        254 => matches!(a, Address::Broadcast { reply_required: true }),
        255 => matches!(a, Address::Broadcast { reply_required: false }),
        _ => matches!(a, Address::Primary(x) if *x == b),
    }
}
fn function(c: u8, f: &Function) -> bool {
    match c {
        0x40 => matches!(f, Function::SndNk { .. }),
        0x44 => matches!(f, Function::SndNr),
        0x53 => matches!(f, Function::SndUd { fcb: false }),
        0x73 => matches!(f, Function::SndUd { fcb: true }),
        0x5B => matches!(f, Function::ReqUd2 { fcb: false }),
        0x7B => matches!(f, Function::ReqUd2 { fcb: true }),
        0x5A => matches!(f, Function::ReqUd1 { fcb: false }),
        0x7A => matches!(f, Function::ReqUd1 { fcb: true }),
        0x08 => matches!(f, Function::RspUd { acd: false, dfc: false }),
        0x18 => matches!(f, Function::RspUd { acd: false, dfc: true }),
        0x28 => matches!(f, Function::RspUd { acd: true, dfc: false }),
        0x38 => matches!(f, Function::RspUd { acd: true, dfc: true }),
        _ => false,
    }
}
pub fn wired(data: &[u8]) {
    assume(data.len() >= 5);
    let long = split(data[0] == 0x68);
    let at = if long { 4 } else { 1 };
    assume(data.len() > at + 1);
    let c = split(data[at]);
    match WiredFrame::try_from(data) {
        Ok(WiredFrame::ShortFrame { function: f, address: a }) => {
            reached("short");
            verify(!long && function(c, &f), "function of a short frame from its control field");
            verify(address(data[2], &a), "address of a short frame");
        }
        Ok(WiredFrame::LongFrame { function: f, address: a, data: d }) | Ok(WiredFrame::ControlFrame { function: f, address: a, data: d }) => {
            reached("long");
            verify(long && function(c, &f), "function of a long frame from its control field");
            verify(address(data[5], &a), "address of a long frame");
            verify(same_region(d, &data[6..data.len() - 2]), "payload of a long frame");
        }
        _ => {}
    }
}
pub fn wireless(data: &[u8]) {
    assume(data.len() > 10);
    let encrypted_ci = if split(any::<bool>()) {
        assume(data[10] >= 0xA0 && data[10] <= 0xAF);
        true
    } else if split(any::<bool>()) {
        assume(data[10] < 0xA0);
        false
    } else {
        assume(data[10] > 0xAF);
        false
    };
    if let Ok(f) = WirelessFrame::try_from(data) {
        reached("wireless");
        let m = &f.manufacturer_id;
        verify(f.control_field == data[1], "control field");
        verify(letters(data[2], data[3], &m.manufacturer_code), "manufacturer: three letters of five bits, low byte first");
        verify(digits(data[4]) && digits(data[5]) && digits(data[6]) && digits(data[7]), "the identification number is decimal");
        verify(m.identification_number.number == number(data[4], data[5], data[6], data[7]), "identification number: four bytes, least significant first");
        verify(m.version == data[8], "version");
        let code = if encrypted_ci { data[9] >> 4 } else { data[9] };
        verify(same(&m.device_type, &DeviceType::from(code)), "device type");
    }
}
pub fn wireless_function(data: &[u8]) {
    assume(data.len() > 10);
    let c = split(data[1]);
    if let Ok(f) = WirelessFrame::try_from(data) {
        match f.function {
            Some(g) => {
                reached("function");
                verify(function(c, &g), "function from the control field");
            }
            None => {
                reached("no function");
                verify(!matches!(c, 0x40 | 0x44 | 0x53 | 0x73 | 0x5B | 0x7B | 0x5A | 0x7A | 0x08 | 0x18 | 0x28 | 0x38), "a defined function is reported");
            }
        }
    }
}
fn config(c: &ConfigurationField, a: u8, b: u8) -> bool {
    c.raw() == a as u16 + 256 * b as u16
}
pub fn long_header(data: &[u8]) {
    assume(data.len() >= 13);
    let ci = split(data[0]);
    assume(ci == 0x72 || ci == 0x76);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { extended_link_layer, long_tpl_header: h, variable_data_block }) => {
            reached("long header");
            verify(extended_link_layer.is_none(), "no extended link layer without its control information");
            verify(h.lsb_order == (ci == 0x76), "byte order from the control information");
            if ci == 0x72 {
                verify(h.identification_number.number == number(data[1], data[2], data[3], data[4]), "identification number");
            } else {
                verify(h.identification_number.number == number(data[4], data[3], data[2], data[1]), "identification number, most significant byte first");
            }
            match &h.manufacturer {
                Ok(m) => verify(letters(data[5], data[6], m), "manufacturer"),
                Err(_) => reached("no manufacturer"),
            }
            verify(h.version == data[7], "version");
            verify(same(&h.device_type, &DeviceType::from(data[8])), "device type");
            verify(h.short_tpl_header.access_number == data[9], "access number");
            verify(h.short_tpl_header.status.bits() == data[10], "status");
            verify(config(&h.short_tpl_header.configuration_field, data[11], data[12]), "configuration field");
            verify(same_region(variable_data_block, &data[13..]), "the payload is everything behind the header");
        }
        Ok(_) => verify(false, "a long header is reported as such"),
        Err(_) => reached("refused"),
    }
}
pub fn short_header(data: &[u8]) {
    assume(data.len() >= 6);
    let ci = split(data[0]);
    assume(ci == 0x7A || (ci >= 0xA0 && ci <= 0xAF));
    let at = if ci == 0xA0 { 2 } else { 1 };
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer, short_tpl_header: h, variable_data_block }) => {
            reached("short header");
            verify(extended_link_layer.is_none(), "no extended link layer without its control information");
            verify(h.access_number == data[at], "access number");
            verify(h.status.bits() == data[at + 1], "status");
            verify(config(&h.configuration_field, data[at + 2], data[at + 3]), "configuration field");
            verify(same_region(variable_data_block, &data[at + 4..]), "the payload is everything behind the header");
        }
        _ => verify(false, "a short header is reported as such"),
    }
}
pub fn no_header(data: &[u8]) {
    assume(data.len() >= 1 && data[0] == 0x78);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer, variable_data_block }) => {
            reached("no header");
            verify(extended_link_layer.is_none(), "no extended link layer without its control information");
            verify(same_region(variable_data_block, &data[1..]), "the payload is everything behind the control information");
        }
        _ => verify(false, "a block without header is reported as such"),
    }
}
pub fn fixed(data: &[u8]) {
    assume(data.len() >= 17);
    let ci = split(data[0]);
    assume(ci == 0x73 || ci == 0x77);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::FixedDataStructure { identification_number, access_number, status, device_type_and_unit, counter1, counter2 }) => {
            reached("fixed");
            verify(identification_number.number == number(data[1], data[2], data[3], data[4]), "identification number");
            verify(access_number == data[5], "access number");
            verify(status.bits() == data[6], "status");
            verify(device_type_and_unit == 256 * data[7] as u16 + data[8] as u16, "device type and units");
            verify(Counter::from_bcd_hex_digits([data[9], data[10], data[11], data[12]]).is_ok_and(|c| same(&c, &counter1)), "first counter");
            verify(Counter::from_bcd_hex_digits([data[13], data[14], data[15], data[16]]).is_ok_and(|c| same(&c, &counter2)), "second counter");
        }
        Ok(_) => verify(false, "a fixed data structure is reported as such"),
        Err(_) => reached("refused"),
    }
}
/// complete headers with decimal fields are accepted
pub fn complete(data: &[u8]) {
    assume(data.len() >= 17);
    let ci = split(data[0]);
    assume(ci == 0x72 || ci == 0x76 || ci == 0x73 || ci == 0x77);
    let mut i = 0;
    while i < 4 {
        assume(digits(data[1 + i]));
        if ci == 0x73 || ci == 0x77 {
            assume(digits(data[9 + i]));
            assume(digits(data[13 + i]));
        }
        i += 1;
    }
    let b = UserDataBlock::try_from(data);
    reached("complete");
    verify(b.is_ok(), "a complete header with decimal fields is accepted");
}
pub fn reset(data: &[u8]) {
    assume(data.len() >= 2 && data[0] == 0x50);
    let s = split(data[1]);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::ResetAtApplicationLevel { subcode }) => {
            reached("reset");
            use ApplicationResetSubcode as A;
            verify(
                match s % 16 {
                    0 => matches!(subcode, A::All(x) if x == s),
                    1 => matches!(subcode, A::UserData(x) if x == s),
                    2 => matches!(subcode, A::SimpleBilling(x) if x == s),
                    3 => matches!(subcode, A::EnhancedBilling(x) if x == s),
                    4 => matches!(subcode, A::MultiTariffBilling(x) if x == s),
                    5 => matches!(subcode, A::InstantaneousValues(x) if x == s),
                    6 => matches!(subcode, A::LoadManagementValues(x) if x == s),
                    7 => matches!(subcode, A::Reserved1(x) if x == s),
                    8 => matches!(subcode, A::InstallationStartup(x) if x == s),
                    9 => matches!(subcode, A::Testing(x) if x == s),
                    10 => matches!(subcode, A::Calibration(x) if x == s),
                    11 => matches!(subcode, A::ConfigurationUpdates(x) if x == s),
                    12 => matches!(subcode, A::Manufacturing(x) if x == s),
                    13 => matches!(subcode, A::Development(x) if x == s),
                    14 => matches!(subcode, A::Selftest(x) if x == s),
                    _ => matches!(subcode, A::Reserved2(x) if x == s),
                },
                "subcode from the byte behind the control information",
            );
        }
        _ => verify(false, "an application reset is reported as such"),
    }
}
/// extended link layer I in front of a short header or none
pub fn ell1(data: &[u8]) {
    assume(data.len() >= 8 && data[0] == 0x8C);
    let ci = split(data[3]);
    assume(ci == 0x7A || ci == 0x78 || ci == 0xA2);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), short_tpl_header: h, variable_data_block }) => {
            reached("short header");
            verify(ci != 0x78, "a short header only behind its control information");
            verify(e.communication_control == data[1], "communication control");
            verify(e.access_number == data[2], "access number of the extended link layer");
            verify(e.receiver_address.is_none() && e.encryption.is_none(), "no receiver, no session");
            verify(h.access_number == data[4], "access number");
            verify(h.status.bits() == data[5], "status");
            verify(config(&h.configuration_field, data[6], data[7]), "configuration field");
            verify(same_region(variable_data_block, &data[8..]), "the payload is everything behind the header");
        }
        Ok(UserDataBlock::VariableDataStructureWithoutTplHeader { extended_link_layer: Some(e), variable_data_block }) => {
            reached("no header");
            verify(ci == 0x78, "no header only behind its control information");
            verify(e.communication_control == data[1], "communication control");
            verify(e.access_number == data[2], "access number of the extended link layer");
            verify(e.receiver_address.is_none() && e.encryption.is_none(), "no receiver, no session");
            verify(same_region(variable_data_block, &data[4..]), "the payload is everything behind the control information");
        }
        _ => verify(false, "a block behind an extended link layer is reported as such"),
    }
}
pub fn ell2(data: &[u8]) {
    assume(data.len() >= 9 && data[0] == 0x8D);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), variable_data_block, .. }) => {
            reached("session");
            verify(e.communication_control == data[1], "communication control");
            verify(e.access_number == data[2], "access number");
            verify(e.receiver_address.is_none(), "no receiver");
            match &e.encryption {
                Some(x) => {
                    verify(x.session_number[0] == data[3] && x.session_number[1] == data[4] && x.session_number[2] == data[5] && x.session_number[3] == data[6], "session number");
                    verify(x.payload_crc == data[7] as u16 + 256 * data[8] as u16, "payload checksum");
                }
                None => verify(false, "the session is reported"),
            }
            verify(same_region(variable_data_block, &data[9..]), "the payload is everything behind the extended link layer");
        }
        _ => verify(false, "a block with session is reported as such"),
    }
}
pub fn ell3(data: &[u8]) {
    assume(data.len() >= 17 && data[0] == 0x8E);
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { extended_link_layer: Some(e), variable_data_block, .. }) => {
            reached("receiver");
            verify(e.communication_control == data[1], "communication control");
            verify(e.access_number == data[2], "access number");
            match &e.receiver_address {
                Some(r) => {
                    verify(r.manufacturer == data[3] as u16 + 256 * data[4] as u16, "manufacturer of the receiver");
                    verify(r.address[0] == data[5] && r.address[1] == data[6] && r.address[2] == data[7] && r.address[3] == data[8] && r.address[4] == data[9] && r.address[5] == data[10], "address of the receiver");
                }
                None => verify(false, "the receiver is reported"),
            }
            match &e.encryption {
                Some(x) => {
                    verify(x.session_number[0] == data[11] && x.session_number[1] == data[12] && x.session_number[2] == data[13] && x.session_number[3] == data[14], "session number");
                    verify(x.payload_crc == data[15] as u16 + 256 * data[16] as u16, "payload checksum");
                }
                None => verify(false, "the session is reported"),
            }
            verify(same_region(variable_data_block, &data[17..]), "the payload is everything behind the extended link layer");
        }
        _ => verify(false, "a block with receiver is reported as such"),
    }
}
/// which kind of block each control information gives, and that a cut header is an error
pub fn kinds(data: &[u8]) {
    let n = if split(any::<bool>()) {
        assume(data.len() >= 18);
        data.len()
    } else {
        assume(data.len() >= 1 && data.len() < 18);
        split(data.len())
    };
    let ci = split(data[0]);
    let inner = if ci == 0x8C && n > 3 {
        assume(data[3] != 0x8C);
        split(data[3])
    } else {
        0
    };
    match UserDataBlock::try_from(data) {
        Ok(UserDataBlock::ResetAtApplicationLevel { .. }) => verify(ci == 0x50 && n >= 2, "application reset"),
        Ok(UserDataBlock::FixedDataStructure { .. }) => verify((ci == 0x73 || ci == 0x77) && n >= 17, "fixed data structure"),
        Ok(UserDataBlock::VariableDataStructureWithLongTplHeader { .. }) => verify((ci == 0x72 || ci == 0x76) && n >= 13, "long header"),
        Ok(UserDataBlock::VariableDataStructureWithShortTplHeader { .. }) => {
            reached("short");
            verify(
                match ci {
                    0x7A | 0xA1..=0xAF => n >= 5,
                    0xA0 => n >= 6,
                    0x8C => match inner {
                        0x7A | 0xA1..=0xAF => n >= 8,
                        0xA0 => n >= 9,
                        0x8D => n >= 12,
                        0x8E => n >= 20,
                        _ => false,
                    },
                    0x8D => n >= 9,
                    0x8E => n >= 17,
                    _ => false,
                },
                "short header",
            );
        }
        Ok(UserDataBlock::VariableDataStructureWithoutTplHeader { .. }) => verify(ci == 0x78 || (ci == 0x8C && n >= 4 && inner == 0x78), "no header"),
        Ok(_) => verify(false, "unknown kind of block"),
        Err(_) => reached("refused"),
    }
}
