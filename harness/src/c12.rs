//! Quantities, units and scales of value information codes (EN 13757-3).
use crate::spec::*;
use m_bus_parser::user_data::value_information::*;
use UnitName::*;
use ValueLabel as L;

/// quantity, up to two units with their exponents, power of ten
type Row = (ValueLabel, Option<(UnitName, i32)>, Option<(UnitName, i32)>, isize);

fn time(b: u8) -> UnitName {
    match b % 4 {
        0 => Second,
        1 => Minute,
        2 => Hour,
        _ => Day,
    }
}
fn long_time(b: u8) -> UnitName {
    match b % 4 {
        0 => Hour,
        1 => Day,
        2 => Month,
        _ => Year,
    }
}
fn primary_row(b: u8) -> Row {
    let n = (b % 8) as isize;
    let m = (b % 4) as isize;
    match b {
        0x00..=0x07 => (L::Energy, Some((Watt, 1)), Some((Hour, 1)), n - 3),
        0x08..=0x0F => (L::Energy, Some((Joul, 1)), None, n),
        0x10..=0x17 => (L::Volume, Some((Meter, 3)), None, n - 6),
        0x18..=0x1F => (L::Mass, Some((Kilogram, 1)), None, n - 3),
        0x20..=0x23 => (L::OnTime, Some((time(b), 1)), None, 0),
        0x24..=0x27 => (L::OperatingTime, Some((time(b), 1)), None, 0),
        0x28..=0x2F => (L::Power, Some((Watt, 1)), None, n - 3),
        0x30..=0x37 => (L::Power, Some((Joul, 1)), Some((Hour, -1)), n),
        0x38..=0x3F => (L::VolumeFlow, Some((Meter, 3)), Some((Hour, -1)), n - 6),
        0x40..=0x47 => (L::VolumeFlow, Some((Meter, 3)), Some((Minute, -1)), n - 7),
        0x48..=0x4F => (L::VolumeFlow, Some((Meter, 3)), Some((Second, -1)), n - 9),
        0x50..=0x57 => (L::MassFlow, Some((Kilogram, 1)), Some((Hour, -1)), n - 3),
        0x58..=0x5B => (L::FlowTemperature, Some((Celsius, 1)), None, m - 3),
        0x5C..=0x5F => (L::ReturnTemperature, Some((Celsius, 1)), None, m - 3),
        0x60..=0x63 => (L::TemperatureDifference, Some((Kelvin, 1)), None, m - 3),
        0x64..=0x67 => (L::ExternalTemperature, Some((Celsius, 1)), None, m - 3),
        0x68..=0x6B => (L::Pressure, Some((Bar, 1)), None, m - 3),
        0x6C => (L::Date, None, None, 0),
        0x6D => (L::DateTime, None, None, 0),
        0x6E => (L::DimensionlessHCA, None, None, 0),
        0x70..=0x73 => (L::AveragingDuration, Some((time(b), 1)), None, 0),
        0x74..=0x77 => (L::ActualityDuration, Some((time(b), 1)), None, 0),
        0x78 => (L::FabricationNumber, None, None, 0),
        0x79 => (L::EnhancedIdentification, None, None, 0),
        _ => (L::Address, None, None, 0),
    }
}
/// codes behind FD that carry a unit or a scale
fn main_row(b: u8) -> Option<Row> {
    let m = (b % 4) as isize;
    Some(match b {
        0x00..=0x03 => (L::Credit, Some((LocalMoneyCurrency, 1)), None, m - 3),
        0x04..=0x07 => (L::Debit, Some((LocalMoneyCurrency, 1)), None, m - 3),
        0x08 => (L::UniqueMessageIdentificationOrAccessNumber, None, None, 0),
        0x09 => (L::DeviceType, None, None, 0),
        0x0A => (L::Manufacturer, None, None, 0),
        0x0B => (L::ParameterSetIdentification, None, None, 0),
        0x0C => (L::ModelOrVersion, None, None, 0),
        0x0D => (L::HardwareVersion, None, None, 0),
        0x0E => (L::MetrologyFirmwareVersion, None, None, 0),
        0x0F => (L::OtherSoftwareVersion, None, None, 0),
        0x10 => (L::CustomerLocation, None, None, 0),
        0x11 => (L::Customer, None, None, 0),
        0x16 => (L::Password, None, None, 0),
        0x17 => (L::ErrorFlags, None, None, 0),
        0x18 => (L::ErrorMask, None, None, 0),
        0x1C => (L::BaudRate, Some((Symbol, 1)), Some((Second, -1)), 0),
        0x1D => (L::ResponseDelayTime, Some((BitTime, 1)), None, 0),
        0x1E => (L::Retry, None, None, 0),
        0x20 => (L::FirstStorageForCycleStorage, None, None, 0),
        0x21 => (L::LastStorageForCycleStorage, None, None, 0),
        0x22 => (L::SizeOfStorageBlock, None, None, 0),
        0x24..=0x27 => (L::StorageInterval, Some((time(b), 1)), None, 0),
        0x28 => (L::StorageInterval, Some((Month, 1)), None, 0),
        0x29 => (L::StorageInterval, Some((Year, 1)), None, 0),
        0x3A => (L::Dimensionless, None, None, 0),
        0x40..=0x4F => (L::Voltage, Some((Volt, 1)), None, (b % 16) as isize - 9),
        0x50..=0x5F => (L::Current, Some((Ampere, 1)), None, (b % 16) as isize - 12),
        0x60 => (L::ResetCounter, None, None, 0),
        0x61 => (L::CumulationCounter, None, None, 0),
        0x62 => (L::ControlSignal, None, None, 0),
        0x63 => (L::DayOfWeek, None, None, 0),
        0x64 => (L::WeekNumber, None, None, 0),
        0x68..=0x6B => (L::DurationSinceLastCumulation, Some((long_time(b), 1)), None, 0),
        0x6C..=0x6F => (L::OperatingTimeBattery, Some((long_time(b), 1)), None, 0),
        _ => return None,
    })
}
/// codes behind FB
fn alternate_row(b: u8) -> Option<Row> {
    let n = (b % 8) as isize;
    let m = (b % 4) as isize;
    let k = (b % 2) as isize;
    Some(match b {
        0x00 | 0x01 => (L::Energy, Some((Watt, 1)), Some((Hour, 1)), 5 + k),
        0x02 | 0x03 => (L::ReactiveEnergy, Some((ReactiveWatt, 1)), Some((Hour, 1)), 3 + k),
        0x08 | 0x09 => (L::Energy, Some((Joul, 1)), None, 8 + k),
        0x0C..=0x0F => (L::Energy, Some((Calorie, 1)), None, 5 + m),
        0x10 | 0x11 => (L::Volume, Some((Meter, 3)), None, 2 + k),
        0x14..=0x17 => (L::ReactivePower, Some((ReactiveWatt, 1)), None, m),
        0x18 | 0x19 => (L::Mass, Some((Tonne, 1)), None, 2 + k),
        0x1A | 0x1B => (L::RelativeHumidity, Some((Percent, 1)), None, k - 1),
        0x21 => (L::Volume, Some((Feet, 3)), None, -1),
        0x28 | 0x29 => (L::Power, Some((Watt, 1)), None, 5 + k),
        0x2C..=0x2F => (L::Frequency, Some((Hertz, 1)), None, m - 3),
        0x30 | 0x31 => (L::Power, Some((Joul, 1)), Some((Hour, -1)), 8 + k),
        0x34..=0x37 => (L::ApparentPower, Some((ApparentWatt, 1)), None, m),
        0x58..=0x5B => (L::FlowTemperature, Some((Fahrenheit, 1)), None, m - 3),
        0x5C..=0x5F => (L::ReturnTemperature, Some((Fahrenheit, 1)), None, m - 3),
        0x60..=0x63 => (L::TemperatureDifference, Some((Fahrenheit, 1)), None, m - 3),
        0x64..=0x67 => (L::ExternalTemperature, Some((Fahrenheit, 1)), None, m - 3),
        0x70..=0x73 => (L::ColdWarmTemperatureLimit, Some((Fahrenheit, 1)), None, m - 3),
        0x74..=0x77 => (L::ColdWarmTemperatureLimit, Some((Celsius, 1)), None, m - 3),
        0x78..=0x7F => (L::CumulativeMaximumOfActivePower, Some((Watt, 1)), None, n - 3),
        _ => return None,
    })
}
/// units a combinable extension adds, and its power of ten
fn combined(b: u8) -> Option<(Option<(UnitName, i32)>, Option<(UnitName, i32)>, isize)> {
    Some(match b {
        0x20 => (Some((Second, -1)), None, 0),
        0x21 => (Some((Minute, -1)), None, 0),
        0x22 => (Some((Hour, -1)), None, 0),
        0x23 => (Some((Day, -1)), None, 0),
        0x24 => (Some((Week, -1)), None, 0),
        0x25 => (Some((Month, -1)), None, 0),
        0x26 => (Some((Year, -1)), None, 0),
        0x27 => (Some((Revolution, -1)), None, 0),
        0x28 => (Some((Increment, 1)), Some((InputPulseOnChannel0, -1)), 0),
        0x29 => (Some((Increment, 1)), Some((InputPulseOnChannel1, -1)), 0),
        0x2A => (Some((Increment, 1)), Some((OutputPulseOnChannel0, -1)), 0),
        0x2B => (Some((Increment, 1)), Some((OutputPulseOnChannel1, -1)), 0),
        0x2C => (Some((Liter, -1)), None, 0),
        0x2D => (Some((Meter, -3)), None, 0),
        0x2E => (Some((Kilogram, -1)), None, 0),
        0x2F => (Some((Kelvin, -1)), None, 0),
        0x30 => (Some((Watt, -1)), Some((Hour, -1)), -3),
        0x31 => (Some((Joul, -1)), None, -9),
        0x32 => (Some((Watt, -1)), None, -3),
        0x33 => (Some((Kelvin, -1)), Some((Liter, -1)), 0),
        0x34 => (Some((Volt, -1)), None, 0),
        0x35 => (Some((Ampere, -1)), None, 0),
        0x36 => (Some((Second, 1)), None, 0),
        0x37 => (Some((Second, 1)), Some((Volt, -1)), 0),
        0x38 => (Some((Second, 1)), Some((Ampere, -1)), 0),
        0x70..=0x77 => (None, None, (b % 8) as isize - 6),
        0x7D => (None, None, 3),
        _ => return None,
    })
}
fn count(r: &Row) -> usize {
    if r.2.is_some() {
        2
    } else if r.1.is_some() {
        1
    } else {
        0
    }
}
fn agrees(v: &ValueInformation, r: &Row) {
    verify(v.labels.len() > 0, "a quantity is reported");
    verify(same(&v.labels[0], &r.0), "the quantity is the one of the table");
    verify(v.units.len() == count(r), "the number of units is the one of the table");
    if let Some((u, e)) = r.1 {
        verify(same(&v.units[0].name, &u) && v.units[0].exponent == e, "the unit is the one of the table");
    }
    if let Some((u, e)) = r.2 {
        verify(same(&v.units[1].name, &u) && v.units[1].exponent == e, "the second unit is the one of the table");
    }
    verify(v.decimal_scale_exponent == r.3, "the power of ten is the one of the table");
    verify(v.decimal_offset_exponent == 0, "nothing is added");
}
fn value(bytes: &[u8]) -> Option<ValueInformation> {
    let b = match ValueInformationBlock::try_from(bytes) {
        Ok(b) => b,
        Err(_) => return None,
    };
    ValueInformation::try_from(&b).ok()
}
pub fn primary() {
    let b = split(any::<u8>() % 0x7B);
    assume(b != 0x6F);
    match value(&[b]) {
        Some(v) => {
            reached("alone");
            agrees(&v, &primary_row(b));
            verify(v.labels.len() == 1, "one quantity");
        }
        None => verify(false, "the code is known"),
    }
    match value(&[b | 0x80, 0x3B]) {
        Some(v) => {
            reached("extended");
            agrees(&v, &primary_row(b));
        }
        None => verify(false, "the code is known with an extension"),
    }
}
pub fn main_table() {
    let b = split(any::<u8>() % 0x80);
    if let Some(r) = main_row(b) {
        match value(&[0xFD, b]) {
            Some(v) => {
                reached("alone");
                agrees(&v, &r);
            }
            None => verify(false, "the code is known"),
        }
        match value(&[0xFD, b | 0x80, 0x3B]) {
            Some(v) => {
                reached("extended");
                agrees(&v, &r);
            }
            None => verify(false, "the code is known with an extension"),
        }
    }
}
pub fn alternate_table() {
    let b = split(any::<u8>() % 0x80);
    if let Some(r) = alternate_row(b) {
        match value(&[0xFB, b]) {
            Some(v) => {
                reached("alone");
                agrees(&v, &r);
            }
            None => verify(false, "the code is known"),
        }
        match value(&[0xFB, b | 0x80, 0x3B]) {
            Some(v) => {
                reached("extended");
                agrees(&v, &r);
            }
            None => verify(false, "the code is known with an extension"),
        }
    }
}
fn adds(v: &ValueInformation, at: usize, r: &(Option<(UnitName, i32)>, Option<(UnitName, i32)>, isize), scale: isize) {
    let n = if r.1.is_some() {
        2
    } else if r.0.is_some() {
        1
    } else {
        0
    };
    verify(v.units.len() == at + n, "the number of units is the one of the table");
    if let Some((u, e)) = r.0 {
        verify(same(&v.units[at].name, &u) && v.units[at].exponent == e, "the unit is the one of the table");
    }
    if let Some((u, e)) = r.1 {
        verify(same(&v.units[at + 1].name, &u) && v.units[at + 1].exponent == e, "the second unit is the one of the table");
    }
    verify(v.decimal_scale_exponent == scale + r.2, "the power of ten is the one of the table");
    verify(v.decimal_offset_exponent == 0, "nothing is added");
}
/// extensions that can follow any code: behind a primary code, behind the tables, and behind another extension
pub fn extensions() {
    let b = split(any::<u8>() % 0x80);
    if let Some(r) = combined(b) {
        if let Some(v) = value(&[0x93, b]) {
            reached("primary");
            adds(&v, 1, &r, -3);
            verify(same(&v.labels[0], &L::Volume), "the quantity stays");
        } else {
            verify(false, "the extension is known");
        }
        if let Some(v) = value(&[0x93, 0x80 | b, 0x3B]) {
            reached("continued");
            adds(&v, 1, &r, -3);
        } else {
            verify(false, "the extension is known");
        }
        if let Some(v) = value(&[0x93, 0xF2, b]) {
            reached("second");
            adds(&v, 1, &r, -7);
        } else {
            verify(false, "the extension is known");
        }
        if let Some(v) = value(&[0xFD, 0xC8, b]) {
            reached("main table");
            adds(&v, 1, &r, -1);
        } else {
            verify(false, "the extension is known");
        }
        if let Some(v) = value(&[0xFB, 0x91, b]) {
            reached("alternate table");
            adds(&v, 1, &r, 3);
        } else {
            verify(false, "the extension is known");
        }
    }
}
/// corrections by a constant
pub fn offsets() {
    let n = split(any::<u8>() % 4);
    if let Some(v) = value(&[0x93, 0x78 + n]) {
        reached("offset");
        verify(v.decimal_offset_exponent == n as isize - 3, "the constant is the one of the table");
        verify(v.decimal_scale_exponent == -3, "the scale stays");
        verify(v.units.len() == 1, "the unit stays");
    } else {
        verify(false, "the extension is known");
    }
}
