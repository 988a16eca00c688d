//! Acceptance of wired frames, both ways.
use crate::spec::*;
use m_bus_parser::WiredFrame;

fn sum(b: &[u8]) -> u8 {
    let mut s = 0u8;
    for x in b {
        s = s.wrapping_add(*x);
    }
    s
}
/// control fields with a defined function
fn known(c: u8) -> bool {
    matches!(c, 0x40 | 0x44 | 0x53 | 0x73 | 0x5B | 0x7B | 0x5A | 0x7A | 0x08 | 0x18 | 0x28 | 0x38)
}
/// whatever is accepted satisfies every integrity condition
pub fn accepted(data: &[u8]) {
    if let Ok(f) = WiredFrame::try_from(data) {
        let n = data.len();
        match f {
            WiredFrame::SingleCharacter { .. } => {
                reached("single");
                verify(n == 1, "a single character frame is one byte long");
                verify(data[0] == 0xE5, "a single character frame is E5");
            }
            WiredFrame::ShortFrame { .. } => {
                reached("short");
                verify(n == 5, "a short frame is five bytes long");
                verify(data[0] == 0x10, "start byte of a short frame");
                verify(data[4] == 0x16, "stop byte of a short frame");
                verify(data[3] == data[1].wrapping_add(data[2]), "checksum of a short frame");
                verify(known(data[1]), "control field of a short frame is a defined function");
            }
            WiredFrame::LongFrame { data: d, .. } | WiredFrame::ControlFrame { data: d, .. } => {
                reached("long");
                verify(n >= 8, "a long frame has a control and an address field");
                verify(data[0] == 0x68, "first start byte of a long frame");
                verify(data[3] == 0x68, "second start byte of a long frame");
                verify(data[1] == data[2], "both length bytes agree");
                verify(data[1] as usize + 6 == n, "the length byte gives the size of the frame");
                verify(data[n - 1] == 0x16, "stop byte of a long frame");
                verify(data[n - 2] == sum(&data[4..n - 2]), "checksum of a long frame");
                verify(known(data[4]), "control field of a long frame is a defined function");
                verify(same_region(d, &data[6..n - 2]), "the payload lies between the address and the checksum");
            }
            _ => verify(false, "unknown kind of frame"),
        }
    }
}
/// a well-formed long frame is accepted, as the right kind
pub fn long(data: &[u8]) {
    let n = data.len();
    assume(n >= 9);
    assume(data[0] == 0x68 && data[3] == 0x68 && data[1] == data[2]);
    assume(data[1] as usize + 6 == n);
    assume(data[n - 1] == 0x16);
    assume(data[n - 2] == sum(&data[4..n - 2]));
    assume(known(data[4]));
    match WiredFrame::try_from(data) {
        Ok(WiredFrame::ControlFrame { .. }) => {
            reached("control");
            verify(data[4] == 0x53, "a control frame has control field 53");
        }
        Ok(WiredFrame::LongFrame { .. }) => {
            reached("long");
            verify(data[4] != 0x53, "a long frame does not have control field 53");
        }
        _ => verify(false, "a well-formed long frame is accepted"),
    }
}
/// a well-formed short frame and the single character are accepted
pub fn short(data: &[u8]) {
    assume(data.len() == 5);
    assume(data[0] == 0x10 && data[4] == 0x16);
    assume(data[3] == data[1].wrapping_add(data[2]));
    assume(known(data[1]));
    match WiredFrame::try_from(data) {
        Ok(WiredFrame::ShortFrame { .. }) => reached("short"),
        _ => verify(false, "a well-formed short frame is accepted"),
    }
}
pub fn single(data: &[u8]) {
    assume(data.len() == 1);
    assume(data[0] == 0xE5);
    match WiredFrame::try_from(data) {
        Ok(WiredFrame::SingleCharacter { character }) => {
            reached("single");
            verify(character == 0xE5, "the single character is E5");
        }
        _ => verify(false, "the single character is accepted"),
    }
}
