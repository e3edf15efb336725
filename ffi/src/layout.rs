//! What C reads through the header's declarations against what Rust holds.
use crate::isa68k::*;
use crate::rng::*;
use crate::runner::*;
use m68000::addressing_modes::{AddressingMode, BriefExtensionWord};
use m68000::exception::Vector;
use m68000::instruction::{Direction, Instruction, Operands, Size};
use m68000::memory_access::MemoryAccess;
use m68000::status_register::StatusRegister;
use m68000::Registers;
use std::mem::{align_of, offset_of, size_of};
use std::ops::Range;

extern "C" {
    fn c_layout(i: u64) -> u64;
    fn c_enum(i: u64) -> i64;
    fn c_instruction(i: *const Instruction, o: *mut i64) -> i32;
    fn c_status_register(s: *const StatusRegister, o: *mut u32);
}

pub struct Keep(pub [*const (); 36]);
unsafe impl Sync for Keep {}
pub static KEEP: Keep = Keep([
    m68000_ffi::mc68000::m68000_mc68000_new as *const (),
    m68000_ffi::mc68000::m68000_mc68000_new_no_reset as *const (),
    m68000_ffi::mc68000::m68000_mc68000_delete as *const (),
    m68000_ffi::mc68000::m68000_mc68000_cycle as *const (),
    m68000_ffi::mc68000::m68000_mc68000_cycle_until_exception as *const (),
    m68000_ffi::mc68000::m68000_mc68000_loop_until_exception_stop as *const (),
    m68000_ffi::mc68000::m68000_mc68000_interpreter as *const (),
    m68000_ffi::mc68000::m68000_mc68000_interpreter_exception as *const (),
    m68000_ffi::mc68000::m68000_mc68000_disassembler_interpreter as *const (),
    m68000_ffi::mc68000::m68000_mc68000_disassembler_interpreter_exception as *const (),
    m68000_ffi::mc68000::m68000_mc68000_exception as *const (),
    m68000_ffi::mc68000::m68000_mc68000_get_next_word as *const (),
    m68000_ffi::mc68000::m68000_mc68000_get_next_long as *const (),
    m68000_ffi::mc68000::m68000_mc68000_peek_next_word as *const (),
    m68000_ffi::mc68000::m68000_mc68000_registers as *const (),
    m68000_ffi::mc68000::m68000_mc68000_registers_mut as *const (),
    m68000_ffi::mc68000::m68000_mc68000_get_registers as *const (),
    m68000_ffi::mc68000::m68000_mc68000_set_registers as *const (),
    m68000_ffi::scc68070::m68000_scc68070_new as *const (),
    m68000_ffi::scc68070::m68000_scc68070_new_no_reset as *const (),
    m68000_ffi::scc68070::m68000_scc68070_delete as *const (),
    m68000_ffi::scc68070::m68000_scc68070_cycle as *const (),
    m68000_ffi::scc68070::m68000_scc68070_cycle_until_exception as *const (),
    m68000_ffi::scc68070::m68000_scc68070_loop_until_exception_stop as *const (),
    m68000_ffi::scc68070::m68000_scc68070_interpreter as *const (),
    m68000_ffi::scc68070::m68000_scc68070_interpreter_exception as *const (),
    m68000_ffi::scc68070::m68000_scc68070_disassembler_interpreter as *const (),
    m68000_ffi::scc68070::m68000_scc68070_disassembler_interpreter_exception as *const (),
    m68000_ffi::scc68070::m68000_scc68070_exception as *const (),
    m68000_ffi::scc68070::m68000_scc68070_get_next_word as *const (),
    m68000_ffi::scc68070::m68000_scc68070_get_next_long as *const (),
    m68000_ffi::scc68070::m68000_scc68070_peek_next_word as *const (),
    m68000_ffi::scc68070::m68000_scc68070_registers as *const (),
    m68000_ffi::scc68070::m68000_scc68070_registers_mut as *const (),
    m68000_ffi::scc68070::m68000_scc68070_get_registers as *const (),
    m68000_ffi::scc68070::m68000_scc68070_set_registers as *const (),
]);

fn layouts() -> Vec<(&'static str, u64)> { vec![
    ("sizeof m68000_memory_result_t", size_of::<m68000_ffi::m68000_memory_result_t>() as u64),
    ("alignof m68000_memory_result_t", align_of::<m68000_ffi::m68000_memory_result_t>() as u64),
    ("offset of m68000_memory_result_t.data", offset_of!(m68000_ffi::m68000_memory_result_t, data) as u64),
    ("offset of m68000_memory_result_t.exception", offset_of!(m68000_ffi::m68000_memory_result_t, exception) as u64),
    ("sizeof m68000_exception_result_t", size_of::<m68000_ffi::m68000_exception_result_t>() as u64),
    ("alignof m68000_exception_result_t", align_of::<m68000_ffi::m68000_exception_result_t>() as u64),
    ("offset of m68000_exception_result_t.cycles", offset_of!(m68000_ffi::m68000_exception_result_t, cycles) as u64),
    ("offset of m68000_exception_result_t.exception", offset_of!(m68000_ffi::m68000_exception_result_t, exception) as u64),
    ("sizeof m68000_disassembler_result_t", size_of::<m68000_ffi::m68000_disassembler_result_t>() as u64),
    ("alignof m68000_disassembler_result_t", align_of::<m68000_ffi::m68000_disassembler_result_t>() as u64),
    ("offset of m68000_disassembler_result_t.cycles", offset_of!(m68000_ffi::m68000_disassembler_result_t, cycles) as u64),
    ("offset of m68000_disassembler_result_t.pc", offset_of!(m68000_ffi::m68000_disassembler_result_t, pc) as u64),
    ("sizeof m68000_disassembler_exception_result_t", size_of::<m68000_ffi::m68000_disassembler_exception_result_t>() as u64),
    ("alignof m68000_disassembler_exception_result_t", align_of::<m68000_ffi::m68000_disassembler_exception_result_t>() as u64),
    ("offset of m68000_disassembler_exception_result_t.cycles", offset_of!(m68000_ffi::m68000_disassembler_exception_result_t, cycles) as u64),
    ("offset of m68000_disassembler_exception_result_t.pc", offset_of!(m68000_ffi::m68000_disassembler_exception_result_t, pc) as u64),
    ("offset of m68000_disassembler_exception_result_t.exception", offset_of!(m68000_ffi::m68000_disassembler_exception_result_t, exception) as u64),
    ("sizeof m68000_callbacks_t", size_of::<m68000_ffi::m68000_callbacks_t>() as u64),
    ("alignof m68000_callbacks_t", align_of::<m68000_ffi::m68000_callbacks_t>() as u64),
    ("offset of m68000_callbacks_t.get_byte", offset_of!(m68000_ffi::m68000_callbacks_t, get_byte) as u64),
    ("offset of m68000_callbacks_t.get_word", offset_of!(m68000_ffi::m68000_callbacks_t, get_word) as u64),
    ("offset of m68000_callbacks_t.get_long", offset_of!(m68000_ffi::m68000_callbacks_t, get_long) as u64),
    ("offset of m68000_callbacks_t.set_byte", offset_of!(m68000_ffi::m68000_callbacks_t, set_byte) as u64),
    ("offset of m68000_callbacks_t.set_word", offset_of!(m68000_ffi::m68000_callbacks_t, set_word) as u64),
    ("offset of m68000_callbacks_t.set_long", offset_of!(m68000_ffi::m68000_callbacks_t, set_long) as u64),
    ("offset of m68000_callbacks_t.reset_instruction", offset_of!(m68000_ffi::m68000_callbacks_t, reset_instruction) as u64),
    ("offset of m68000_callbacks_t.user_data", offset_of!(m68000_ffi::m68000_callbacks_t, user_data) as u64),
    ("sizeof m68000_status_register_t", size_of::<StatusRegister>() as u64),
    ("alignof m68000_status_register_t", align_of::<StatusRegister>() as u64),
    ("offset of m68000_status_register_t.t", offset_of!(StatusRegister, t) as u64),
    ("offset of m68000_status_register_t.s", offset_of!(StatusRegister, s) as u64),
    ("offset of m68000_status_register_t.interrupt_mask", offset_of!(StatusRegister, interrupt_mask) as u64),
    ("offset of m68000_status_register_t.x", offset_of!(StatusRegister, x) as u64),
    ("offset of m68000_status_register_t.n", offset_of!(StatusRegister, n) as u64),
    ("offset of m68000_status_register_t.z", offset_of!(StatusRegister, z) as u64),
    ("offset of m68000_status_register_t.v", offset_of!(StatusRegister, v) as u64),
    ("offset of m68000_status_register_t.c", offset_of!(StatusRegister, c) as u64),
    ("sizeof m68000_registers_t", size_of::<Registers>() as u64),
    ("alignof m68000_registers_t", align_of::<Registers>() as u64),
    ("offset of m68000_registers_t.d", offset_of!(Registers, d) as u64),
    ("offset of m68000_registers_t.a", offset_of!(Registers, a) as u64),
    ("offset of m68000_registers_t.usp", offset_of!(Registers, usp) as u64),
    ("offset of m68000_registers_t.ssp", offset_of!(Registers, ssp) as u64),
    ("offset of m68000_registers_t.sr", offset_of!(Registers, sr) as u64),
    ("offset of m68000_registers_t.pc", offset_of!(Registers, pc) as u64),
    ("sizeof m68000_instruction_t", size_of::<Instruction>() as u64),
    ("alignof m68000_instruction_t", align_of::<Instruction>() as u64),
    ("offset of m68000_instruction_t.opcode", offset_of!(Instruction, opcode) as u64),
    ("offset of m68000_instruction_t.pc", offset_of!(Instruction, pc) as u64),
    ("offset of m68000_instruction_t.operands", offset_of!(Instruction, operands) as u64),
    ("sizeof m68000_operands_t", size_of::<Operands>() as u64),
    ("alignof m68000_operands_t", align_of::<Operands>() as u64),
    ("sizeof m68000_addressing_mode_t", size_of::<AddressingMode>() as u64),
    ("alignof m68000_addressing_mode_t", align_of::<AddressingMode>() as u64),
    ("sizeof m68000_brief_extension_word_t", size_of::<BriefExtensionWord>() as u64),
    ("alignof m68000_brief_extension_word_t", align_of::<BriefExtensionWord>() as u64),
    ("sizeof m68000_direction_t", size_of::<Direction>() as u64),
    ("alignof m68000_direction_t", align_of::<Direction>() as u64),
    ("sizeof m68000_size_t", size_of::<Size>() as u64),
    ("alignof m68000_size_t", align_of::<Size>() as u64),
    ("sizeof m68000_vector_t", size_of::<Vector>() as u64),
    ("alignof m68000_vector_t", align_of::<Vector>() as u64),
] }
fn enums() -> Vec<(&'static str, i64)> { vec![
    ("RegisterToMemory", Direction::RegisterToMemory as i64),
    ("MemoryToRegister", Direction::MemoryToRegister as i64),
    ("DstReg", Direction::DstReg as i64),
    ("DstEa", Direction::DstEa as i64),
    ("Left", Direction::Left as i64),
    ("Right", Direction::Right as i64),
    ("RegisterToUsp", Direction::RegisterToUsp as i64),
    ("UspToRegister", Direction::UspToRegister as i64),
    ("RegisterToRegister", Direction::RegisterToRegister as i64),
    ("MemoryToMemory", Direction::MemoryToMemory as i64),
    ("ExchangeData", Direction::ExchangeData as i64),
    ("ExchangeAddress", Direction::ExchangeAddress as i64),
    ("ExchangeDataAddress", Direction::ExchangeDataAddress as i64),
    ("Byte", Size::Byte as i64),
    ("Word", Size::Word as i64),
    ("Long", Size::Long as i64),
    ("ResetSspPc", Vector::ResetSspPc as i64),
    ("AccessError", Vector::AccessError as i64),
    ("AddressError", Vector::AddressError as i64),
    ("IllegalInstruction", Vector::IllegalInstruction as i64),
    ("ZeroDivide", Vector::ZeroDivide as i64),
    ("ChkInstruction", Vector::ChkInstruction as i64),
    ("TrapVInstruction", Vector::TrapVInstruction as i64),
    ("PrivilegeViolation", Vector::PrivilegeViolation as i64),
    ("Trace", Vector::Trace as i64),
    ("LineAEmulator", Vector::LineAEmulator as i64),
    ("LineFEmulator", Vector::LineFEmulator as i64),
    ("FormatError", Vector::FormatError as i64),
    ("UninitializedInterrupt", Vector::UninitializedInterrupt as i64),
    ("SpuriousInterrupt", Vector::SpuriousInterrupt as i64),
    ("Level1Interrupt", Vector::Level1Interrupt as i64),
    ("Level2Interrupt", Vector::Level2Interrupt as i64),
    ("Level3Interrupt", Vector::Level3Interrupt as i64),
    ("Level4Interrupt", Vector::Level4Interrupt as i64),
    ("Level5Interrupt", Vector::Level5Interrupt as i64),
    ("Level6Interrupt", Vector::Level6Interrupt as i64),
    ("Level7Interrupt", Vector::Level7Interrupt as i64),
    ("Trap0Instruction", Vector::Trap0Instruction as i64),
    ("Trap1Instruction", Vector::Trap1Instruction as i64),
    ("Trap2Instruction", Vector::Trap2Instruction as i64),
    ("Trap3Instruction", Vector::Trap3Instruction as i64),
    ("Trap4Instruction", Vector::Trap4Instruction as i64),
    ("Trap5Instruction", Vector::Trap5Instruction as i64),
    ("Trap6Instruction", Vector::Trap6Instruction as i64),
    ("Trap7Instruction", Vector::Trap7Instruction as i64),
    ("Trap8Instruction", Vector::Trap8Instruction as i64),
    ("Trap9Instruction", Vector::Trap9Instruction as i64),
    ("Trap10Instruction", Vector::Trap10Instruction as i64),
    ("Trap11Instruction", Vector::Trap11Instruction as i64),
    ("Trap12Instruction", Vector::Trap12Instruction as i64),
    ("Trap13Instruction", Vector::Trap13Instruction as i64),
    ("Trap14Instruction", Vector::Trap14Instruction as i64),
    ("Trap15Instruction", Vector::Trap15Instruction as i64),
    ("Level1OnChipInterrupt", Vector::Level1OnChipInterrupt as i64),
    ("Level2OnChipInterrupt", Vector::Level2OnChipInterrupt as i64),
    ("Level3OnChipInterrupt", Vector::Level3OnChipInterrupt as i64),
    ("Level4OnChipInterrupt", Vector::Level4OnChipInterrupt as i64),
    ("Level5OnChipInterrupt", Vector::Level5OnChipInterrupt as i64),
    ("Level6OnChipInterrupt", Vector::Level6OnChipInterrupt as i64),
    ("Level7OnChipInterrupt", Vector::Level7OnChipInterrupt as i64),
    ("UserInterrupt", Vector::UserInterrupt as i64),
    ("m68000_status_register_t_DEFAULT", u16::from(StatusRegister::default()) as i64),
] }

fn am(a: AddressingMode, o: &mut Vec<i64>) {
    use AddressingMode::*;
    let (t, x, y) = match a {
        Drd(r) => ('D', r as i64, 0), Ard(r) => ('A', r as i64, 0), Ari(r) => ('I', r as i64, 0), Ariwpo(r) => ('+', r as i64, 0), Ariwpr(r) => ('-', r as i64, 0),
        Ariwd(r, d) => ('d', r as i64, d as i64), Ariwi8(r, b) => ('i', r as i64, b.0 as i64), AbsShort(w) => ('s', w as i64, 0), AbsLong(l) => ('l', l as i64, 0),
        Pciwd(p, d) => ('p', p as i64, d as i64), Pciwi8(p, b) => ('x', p as i64, b.0 as i64), Immediate(i) => ('#', i as i64, 0),
    };
    o.extend([t as i64, x, y]);
}
fn flat(i: &Instruction) -> Vec<i64> {
    use Operands::*;
    let mut o = vec![i.opcode as i64, i.pc as i64];
    macro_rules! p { ($t:expr $(, $x:expr)*) => {{ o.push($t); $( o.push($x as i64); )* }} }
    match i.operands {
        NoOperands => p!(100), Immediate(v) => p!(101, v),
        SizeEffectiveAddressImmediate(s, a, v) => { p!(102, s); am(a, &mut o); o.push(v as i64); },
        EffectiveAddressCount(a, c) => { p!(103); am(a, &mut o); o.push(c as i64); },
        EffectiveAddress(a) => { p!(104); am(a, &mut o); },
        SizeEffectiveAddress(s, a) => { p!(105, s); am(a, &mut o); },
        RegisterEffectiveAddress(r, a) => { p!(106, r); am(a, &mut o); },
        RegisterDirectionSizeRegisterDisplacement(r, d, s, q, x) => p!(107, r, d, s, q, x),
        SizeRegisterEffectiveAddress(s, r, a) => { p!(108, s, r); am(a, &mut o); },
        SizeEffectiveAddressEffectiveAddress(s, a, b) => { p!(109, s); am(a, &mut o); am(b, &mut o); },
        RegisterOpmodeRegister(a, d, b) => p!(110, a, d, b), OpmodeRegister(a, b) => p!(111, a, b), Vector(v) => p!(112, v), RegisterDisplacement(r, d) => p!(113, r, d), Register(r) => p!(114, r),
        DirectionRegister(d, r) => p!(115, d, r),
        DirectionSizeEffectiveAddressList(d, s, a, l) => { p!(116, d, s); am(a, &mut o); o.push(l as i64); },
        DataSizeEffectiveAddress(d, s, a) => { p!(117, d, s); am(a, &mut o); },
        ConditionEffectiveAddress(c, a) => { p!(118, c); am(a, &mut o); },
        ConditionRegisterDisplacement(c, r, d) => p!(119, c, r, d), Displacement(d) => p!(120, d), ConditionDisplacement(c, d) => p!(121, c, d), RegisterData(r, d) => p!(122, r, d),
        RegisterDirectionSizeEffectiveAddress(r, d, s, a) => { p!(123, r, d, s); am(a, &mut o); },
        RegisterSizeEffectiveAddress(r, s, a) => { p!(124, r, s); am(a, &mut o); },
        RegisterSizeModeRegister(r, s, d, q) => p!(125, r, s, d, q), RegisterSizeRegister(r, s, q) => p!(126, r, s, q),
        DirectionEffectiveAddress(d, a) => { p!(127, d); am(a, &mut o); },
        RotationDirectionSizeModeRegister(r, d, s, m, q) => p!(128, r, d, s, m, q),
    }
    o
}

pub fn run(c: &mut Ctx, unit: u64, its: Range<u64>) {
    if unit == 0 && its.start == 0 {
        for (i, (n, v)) in layouts().iter().enumerate() { c.evals += 1; let g = unsafe { c_layout(i as u64) }; if g != *v { c.violation(0, &format!("layout:{n}"), format!("{n} is {g} in C, {v} in Rust")); } }
        for (i, (n, v)) in enums().iter().enumerate() { c.evals += 1; let g = unsafe { c_enum(i as u64) }; if g != *v { c.violation(0, &format!("value:{n}"), format!("{n} is {g} in C, {v} in Rust")); } }
        c.count("sizes, alignments and offsets compared", layouts().len() as u64);
        c.count("enumerators compared", enums().len() as u64);
    }
    let (mut kinds, mut n) = (std::collections::BTreeSet::new(), 0u64);
    for it in its {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        for lo in 0..1024u16 {
            let op = (unit as u16) << 10 | lo;
            let mut mem: Vec<u16> = vec![op];
            for _ in 0..6 { mem.push(crate::lockstep::gen_ext(&mut rng)); }
            if decode(op).is_none() { continue; }
            let Ok(i) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instruction::from_opcode(op, rng.u32() & !1, &mut mem.as_mut_slice().iter_u16(2)))) else { continue };
            let want = flat(&i);
            let mut got = [0i64; 16];
            let k = unsafe { c_instruction(&i, got.as_mut_ptr()) } as usize;
            n += 1;
            kinds.insert(want[2]);
            c.eval(mix(op as u64 ^ (mem[1] as u64) << 16));
            if got[..k] != want[..] { c.violation(it, &format!("operands:{}", want[2]), format!("{i:?} is read from C as {:?}, expected {want:?}", &got[..k])); }
        }
        let mut sr = StatusRegister::default();
        crate::lockstep::set_sr(&mut sr, rng.u16() & 0xA71F);
        let mut g = [0u32; 8];
        unsafe { c_status_register(&sr, g.as_mut_ptr()) };
        let w = [sr.t as u32, sr.s as u32, sr.interrupt_mask as u32, sr.x as u32, sr.n as u32, sr.z as u32, sr.v as u32, sr.c as u32];
        if g != w { c.violation(it, "status-register", format!("{sr:?} is read from C as {g:?}")); }
    }
    c.count("instructions read back from C", n);
    for k in kinds { c.count(&format!("operand kind {k}"), 1); }
}
