id = 'opcode_15'
property = 'C13'
needs = 'a frame with opcode 15'
breaks = 'a frame with the reserved opcode 15 is not decoded'
edits = [('puck/src/ws/frame.rs', '_i @ 11..=15 => OpCode::Reserved,', '_i @ 11..=14 => OpCode::Reserved,')]
main = r'''use puck::ws::frame::{Frame, OpCode};
fn main() {
    let f = Frame::parse(Cursor::new(vec![0x8f_u8, 0x81, 0, 0, 0, 0, 65]));
    holds(matches!(f, Ok(f) if f.op_code() == &OpCode::Reserved && f.decoded() == &vec![65]));
}
'''
