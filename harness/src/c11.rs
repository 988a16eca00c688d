//! Code tables: total, with the standard's meaning, and the same in both directions.
use crate::spec::*;
use core::str::FromStr;
use m_bus_core::*;
use m_bus_parser::{OutputFormat};

/// EN 13757-7 table 13
fn device(x: u8) -> DeviceType {
    use DeviceType::*;
    match x {
        0x00 => Other,
        0x01 => OilMeter,
        0x02 => ElectricityMeter,
        0x03 => GasMeter,
        0x04 => HeatMeterReturn,
        0x05 => SteamMeter,
        0x06 => WarmWaterMeter,
        0x07 => WaterMeter,
        0x08 => HeatCostAllocator,
        0x09 => CompressedAir,
        0x0A => CoolingMeterReturn,
        0x0B => CoolingMeterFlow,
        0x0C => HeatMeterFlow,
        0x0D => CombinedHeatCoolingMeter,
        0x0E => BusSystemComponent,
        0x0F => UnknownDevice,
        0x10 => IrrigationWaterMeter,
        0x11 => WaterDataLogger,
        0x12 => GasDataLogger,
        0x13 => GasConverter,
        0x14 => CalorificValue,
        0x15 => HotWaterMeter,
        0x16 => ColdWaterMeter,
        0x17 => DualRegisterWaterMeter,
        0x18 => PressureMeter,
        0x19 => AdConverter,
        0x1A => SmokeDetector,
        0x1B => RoomSensor,
        0x1C => GasDetector,
        0x1D..=0x1F => ReservedSensor(x),
        0x20 => ElectricityBreaker,
        0x21 => Valve,
        0x22..=0x24 => ReservedSwitch(x),
        0x25 => CustomerUnit,
        0x26 | 0x27 => ReservedCustomer(x),
        0x28 => WasteWaterMeter,
        0x29 => Garbage,
        0x2A => ReservedCO2,
        0x2B..=0x2F => ReservedEnvironmental(x),
        0x30 => ServiceTool,
        0x31 => CommunicationController,
        0x32 => UnidirectionalRepeater,
        0x33 => BidirectionalRepeater,
        0x34 | 0x35 => ReservedSystem(x),
        0x36 => RadioConverterSystemSide,
        0x37 => RadioConverterMeterSide,
        0x38 => BusConverterMeterSide,
        0x39..=0x3F => ReservedSystem(x),
        0x40..=0xFE => Reserved(x),
        0xFF => Wildcard,
    }
}
pub fn device_type(x: u8) {
    let x = split(x);
    let d = DeviceType::from(x);
    reached("device type");
    verify(d == device(x), "the device type is the one of the standard");
    verify(u8::from(d) == x, "converting the device type back yields the code");
}
/// EN 13757-7 table 19
pub fn security_mode(x: u8) {
    use SecurityMode::*;
    let x = split(x);
    let m = x & 31;
    let s = SecurityMode::from_bits(x);
    let e = match m {
        0 => NoEncryption,
        1 => ManufacturerSpecific,
        2 => DesIvZero,
        3 => DesIvNonZero,
        4 => SpecificUsage4,
        5 => AesCbc128IvNonZero,
        6 => Reserved6,
        7 => AesCbc128IvZero,
        8 => AesCtr128Cmac,
        9 => AesGcm128,
        10 => AesCcm128,
        11 => Reserved11,
        12 => Reserved12,
        13 => SpecificUsage13,
        14 => Reserved14,
        15 => SpecificUsage15,
        o => ReservedHigher(o),
    };
    reached("security mode");
    verify(s == e, "the security mode is the one of the standard");
    verify(s.to_bits() == m, "converting the security mode back yields its five bits");
}
/// the mode sits in bits 12-8 of the configuration field, for every content of the other bits
pub fn configuration(lo: u8, hi: u8) {
    let c = ConfigurationField::from_bytes(lo, hi);
    verify(c.raw() == (hi as u16) * 256 + lo as u16, "raw value of the configuration field");
    verify(u16::from(c) == c.raw() && u16::from(ConfigurationField::from(c.raw())) == c.raw(), "the configuration field converts both ways");
    verify(c.mode_specific_lower() == lo, "lower mode-specific bits");
    verify(c.mode_specific_upper() == hi / 32, "upper mode-specific bits");
    let h = split(hi);
    let c = ConfigurationField::from_bytes(lo, h);
    reached("configuration field");
    verify(c.security_mode().to_bits() == h & 31, "security mode bits of the configuration field");
}
/// three letters of five bits each
pub fn manufacturer(id: u16) {
    let (a, b, c) = (id / 1024, id / 32 % 32, id % 32);
    let letters = |x: u16| x >= 1 && x <= 26;
    let valid = letters(a) && letters(b) && letters(c);
    match ManufacturerCode::from_id(id) {
        Ok(m) => {
            reached("manufacturer");
            verify(valid, "only three letters A-Z make a manufacturer code");
            verify(m.code[0] as u32 == 64 + a as u32, "first letter");
            verify(m.code[1] as u32 == 64 + b as u32, "second letter");
            verify(m.code[2] as u32 == 64 + c as u32, "third letter");
            verify(m.to_id() == id, "converting the manufacturer code back yields the number");
        }
        Err(_) => {
            reached("no manufacturer");
            verify(!valid, "every three letters A-Z make a manufacturer code");
        }
    }
}
pub fn function(x: u8) {
    use Function::*;
    let x = split(x);
    let f = Function::try_from(x);
    let e = match x {
        0x40 => Some(SndNk { prm: false }),
        0x44 => Some(SndNr),
        0x53 => Some(SndUd { fcb: false }),
        0x73 => Some(SndUd { fcb: true }),
        0x5B => Some(ReqUd2 { fcb: false }),
        0x7B => Some(ReqUd2 { fcb: true }),
        0x5A => Some(ReqUd1 { fcb: false }),
        0x7A => Some(ReqUd1 { fcb: true }),
        // ACD is bit 5 and DFC bit 4
        0x08 | 0x18 | 0x28 | 0x38 => Some(RspUd { acd: x & 0x20 != 0, dfc: x & 0x10 != 0 }),
        _ => None,
    };
    reached("function");
    match (f, e) {
        (Ok(f), Some(e)) => verify(f == e, "the function is the one of the control field"),
        (Err(FrameError::InvalidFunction { byte }), None) => verify(byte == x, "an undefined control field is reported as it is"),
        _ => verify(false, "exactly the defined control fields have a function"),
    }
}
pub fn format_names() {
    use OutputFormat::*;
    verify(Table.as_str() == "table", "name of the table format");
    verify(Json.as_str() == "json", "name of the JSON format");
    verify(Yaml.as_str() == "yaml", "name of the YAML format");
    verify(Csv.as_str() == "csv", "name of the CSV format");
    verify(Mermaid.as_str() == "mermaid", "name of the Mermaid format");
    verify(Xml.as_str() == "xml", "name of the XML format");
    verify(Annotated.as_str() == "annotated", "name of the annotated format");
    verify(AnnotatedText.as_str() == "annotated-text", "name of the annotated text format");
    for f in [Table, Json, Yaml, Csv, Mermaid, Xml, Annotated, AnnotatedText] {
        reached("format");
        verify(OutputFormat::from_str(f.as_str()) == Ok(f), "the name of a format selects the format");
    }
}
