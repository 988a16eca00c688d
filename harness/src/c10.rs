//! Storage number, tariff, subunit, function and coding from the data information block.
use crate::spec::*;
use m_bus_parser::user_data::data_information::*;

fn coding(d: u8, c: &DataFieldCoding) -> bool {
    match d % 16 {
        0 => matches!(c, DataFieldCoding::NoData),
        1 => matches!(c, DataFieldCoding::Integer8Bit),
        2 => matches!(c, DataFieldCoding::Integer16Bit),
        3 => matches!(c, DataFieldCoding::Integer24Bit),
        4 => matches!(c, DataFieldCoding::Integer32Bit),
        5 => matches!(c, DataFieldCoding::Real32Bit),
        6 => matches!(c, DataFieldCoding::Integer48Bit),
        7 => matches!(c, DataFieldCoding::Integer64Bit),
        8 => matches!(c, DataFieldCoding::SelectionForReadout),
        9 => matches!(c, DataFieldCoding::BCD2Digit),
        10 => matches!(c, DataFieldCoding::BCD4Digit),
        11 => matches!(c, DataFieldCoding::BCD6Digit),
        12 => matches!(c, DataFieldCoding::BCD8Digit),
        13 => matches!(c, DataFieldCoding::VariableLength),
        14 => matches!(c, DataFieldCoding::BCDDigit12),
        _ => match d {
            0x0F => matches!(c, DataFieldCoding::SpecialFunctions(SpecialFunctions::ManufacturerSpecific)),
            0x1F => matches!(c, DataFieldCoding::SpecialFunctions(SpecialFunctions::MoreRecordsFollow)),
            0x2F => matches!(c, DataFieldCoding::SpecialFunctions(SpecialFunctions::IdleFiller)),
            0x7F => matches!(c, DataFieldCoding::SpecialFunctions(SpecialFunctions::GlobalReadoutRequest)),
            _ => matches!(c, DataFieldCoding::SpecialFunctions(SpecialFunctions::Reserved)),
        },
    }
}
fn function(d: u8, f: &FunctionField) -> bool {
    match d / 16 % 4 {
        0 => matches!(f, FunctionField::InstantaneousValue),
        1 => matches!(f, FunctionField::MaximumValue),
        2 => matches!(f, FunctionField::MinimumValue),
        _ => matches!(f, FunctionField::ValueDuringErrorState),
    }
}
/// function and coding of every information byte
pub fn field(d: u8, rest: &[u8; 1]) {
    let d = split(d);
    assume(d < 128);
    let b = [d, rest[0]];
    let Ok(block) = DataInformationBlock::try_from(&b[..]) else {
        verify(false, "a byte without extension is a block");
        return;
    };
    match DataInformation::try_from(&block) {
        Ok(i) => {
            reached("field");
            verify(function(d, &i.function_field), "function from bits 5 and 4");
            verify(coding(d, &i.data_field_coding), "coding from the low four bits");
            verify(i.storage_number == d as u64 / 64, "storage number from bit 6");
            verify(i.tariff == 0 && i.device == 0, "no tariff or subunit without extension");
        }
        Err(_) => verify(false, "a block has its information"),
    }
}
/// chains of 1 to 10 extension bytes, all bit patterns
pub fn chain(data: &[u8], k: usize, c: u8) {
    assume(k >= 1 && k <= 10);
    let k = split(k);
    assume(c < 15);
    let c = split(c);
    assume(data.len() > k);
    let mut i = 0;
    while i < k {
        assume(data[i] >= 128);
        i += 1;
    }
    assume(data[k] < 128);
    assume(data[0] % 16 == c);
    let Ok(block) = DataInformationBlock::try_from(data) else {
        verify(false, "a chain of at most ten extension bytes is a block");
        return;
    };
    verify(block.get_size() == k + 1, "the block ends with the byte that has no extension bit");
    let Ok(x) = DataInformation::try_from(&block) else {
        verify(false, "a block has its information");
        return;
    };
    reached("chain");
    let (mut s, mut t, mut u) = (data[0] as u64 / 64 % 2, 0u64, 0u64);
    let (mut ws, mut wt, mut wu) = (2u64, 1u64, 1u64);
    let mut i = 1;
    while i <= k {
        s += (data[i] % 16) as u64 * ws;
        t += (data[i] / 16 % 4) as u64 * wt;
        u += (data[i] / 64 % 2) as u64 * wu;
        ws *= 16;
        wt *= 4;
        wu *= 2;
        i += 1;
    }
    verify(x.storage_number == s, "storage number: bit 6, then four bits per extension byte");
    verify(x.tariff == t, "tariff: two bits per extension byte");
    verify(x.device == u, "subunit: one bit per extension byte");
    verify(function(data[0], &x.function_field), "function");
    verify(coding(c, &x.data_field_coding), "coding");
}
/// a chain that does not end is an error
pub fn endless(data: &[u8]) {
    let n = data.len();
    assume(n >= 1 && n <= 12);
    let n = split(n);
    let mut i = 0;
    while i < n {
        assume(data[i] >= 128);
        i += 1;
    }
    reached("endless");
    verify(DataInformationBlock::try_from(data).is_err(), "a chain that does not end within the payload is an error");
}
