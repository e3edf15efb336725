//! The assembler functions as data: every constructor with its operands, how to call it, and what the manual says it
//! must emit (or that it must refuse).
use crate::isa68k::*;
use crate::rng::*;
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::assembler as a;
use m68000::assembler::Condition;
use m68000::instruction::{Direction, Operands, Size};
use m68000::isa::Isa;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum F {
    Abcd, Add, Adda, Addi, Addq, Addx, And, Andi, Andiccr, Andisr, Asm, Asr, Bcc, BchgD, BchgS, BclrD, BclrS, Bra, BsetD, BsetS, Bsr, BtstD, BtstS, Chk, Clr, Cmp, Cmpa, Cmpi, Cmpm, Dbcc, Divs, Divu,
    Eor, Eori, Eoriccr, Eorisr, Exg, Ext, Illegal, Jmp, Jsr, Lea, Link, Lsm, Lsr, Move, Movea, Moveccr, Movefsr, Movesr, Moveusp, Movem, Movep, Moveq, Muls, Mulu, Nbcd, Neg, Negx, Nop, Not, Or, Ori,
    Oriccr, Orisr, Pea, Reset, Rom, Ror, Roxm, Roxr, Rte, Rtr, Rts, Sbcd, Scc, Stop, Sub, Suba, Subi, Subq, Subx, Swap, Tas, Trap, Trapv, Tst, Unlk,
}
pub const FS: [F; 88] = {
    use F::*;
    [Abcd, Add, Adda, Addi, Addq, Addx, And, Andi, Andiccr, Andisr, Asm, Asr, Bcc, BchgD, BchgS, BclrD, BclrS, Bra, BsetD, BsetS, Bsr, BtstD, BtstS, Chk, Clr, Cmp, Cmpa, Cmpi, Cmpm, Dbcc, Divs, Divu,
        Eor, Eori, Eoriccr, Eorisr, Exg, Ext, Illegal, Jmp, Jsr, Lea, Link, Lsm, Lsr, Move, Movea, Moveccr, Movefsr, Movesr, Moveusp, Movem, Movep, Moveq, Muls, Mulu, Nbcd, Neg, Negx, Nop, Not, Or, Ori,
        Oriccr, Orisr, Pea, Reset, Rom, Ror, Roxm, Roxr, Rte, Rtr, Rts, Sbcd, Scc, Stop, Sub, Suba, Subi, Subq, Subx, Swap, Tas, Trap, Trapv, Tst, Unlk]
};
pub const CONDS: [Condition; 16] = [Condition::T, Condition::F, Condition::HI, Condition::LS, Condition::CC, Condition::CS, Condition::NE, Condition::EQ, Condition::VC, Condition::VS, Condition::PL, Condition::MI,
    Condition::GE, Condition::LT, Condition::GT, Condition::LE];
pub const DIRS: [Direction; 13] = [Direction::RegisterToMemory, Direction::MemoryToRegister, Direction::DstReg, Direction::DstEa, Direction::Left, Direction::Right, Direction::RegisterToUsp, Direction::UspToRegister,
    Direction::RegisterToRegister, Direction::MemoryToMemory, Direction::ExchangeData, Direction::ExchangeAddress, Direction::ExchangeDataAddress];
pub const SIZES: [Size; 3] = [Size::Byte, Size::Word, Size::Long];

/// A call: the fields a function does not take are ignored.
/// `r1` is the left-most (high order) register or count, `r2` the right-most one.
#[derive(Clone, Copy, Debug)]
pub struct Call { pub f: F, pub r1: u16, pub r2: u16, pub dir: Direction, pub size: Size, pub am: Am, pub am2: Am, pub imm: u32, pub cond: usize, pub flag: bool }

impl Call {
    pub fn new(f: F) -> Call { Call { f, r1: 0, r2: 0, dir: Direction::Left, size: Size::Word, am: Am::Drd(0), am2: Am::Drd(0), imm: 0, cond: 0, flag: false } }
    pub fn invoke(&self) -> Vec<u16> {
        let Call { f, r1, r2, dir, size, am, am2, imm, cond, flag } = *self;
        let (b1, b2) = (r1 as u8, r2 as u8);
        let cond = CONDS[cond];
        match f {
            F::Abcd => vec![a::abcd(b1, dir, b2)], F::Sbcd => vec![a::sbcd(b1, dir, b2)],
            F::Addx => vec![a::addx(b1, size, dir, b2)], F::Subx => vec![a::subx(b1, size, dir, b2)],
            F::Add => a::add(b1, dir, size, am), F::And => a::and(b1, dir, size, am), F::Or => a::or(b1, dir, size, am), F::Sub => a::sub(b1, dir, size, am),
            F::Adda => a::adda(b1, size, am), F::Cmpa => a::cmpa(b1, size, am), F::Suba => a::suba(b1, size, am), F::Cmp => a::cmp(b1, size, am), F::Eor => a::eor(b1, size, am),
            F::Addi => a::addi(size, am, imm), F::Andi => a::andi(size, am, imm), F::Cmpi => a::cmpi(size, am, imm), F::Eori => a::eori(size, am, imm), F::Ori => a::ori(size, am, imm), F::Subi => a::subi(size, am, imm),
            F::Addq => a::addq(b1, size, am), F::Subq => a::subq(b1, size, am),
            F::Andiccr => a::andiccr(imm as u16).to_vec(), F::Andisr => a::andisr(imm as u16).to_vec(), F::Eoriccr => a::eoriccr(imm as u16).to_vec(), F::Eorisr => a::eorisr(imm as u16).to_vec(),
            F::Oriccr => a::oriccr(imm as u16).to_vec(), F::Orisr => a::orisr(imm as u16).to_vec(), F::Stop => a::stop(imm as u16).to_vec(),
            F::Asm => a::asm(dir, am), F::Lsm => a::lsm(dir, am), F::Rom => a::rom(dir, am), F::Roxm => a::roxm(dir, am),
            F::Asr => vec![a::asr(r1, dir, size, flag, r2)], F::Lsr => vec![a::lsr(r1, dir, size, flag, r2)], F::Ror => vec![a::ror(r1, dir, size, flag, r2)], F::Roxr => vec![a::roxr(r1, dir, size, flag, r2)],
            F::Bcc => a::bcc(cond, imm as i16), F::Bra => a::bra(imm as i16), F::Bsr => a::bsr(imm as i16),
            F::BchgD => a::bchg_dynamic(b1, am), F::BclrD => a::bclr_dynamic(b1, am), F::BsetD => a::bset_dynamic(b1, am), F::BtstD => a::btst_dynamic(b1, am),
            F::BchgS => a::bchg_static(am, imm as u8), F::BclrS => a::bclr_static(am, imm as u8), F::BsetS => a::bset_static(am, imm as u8), F::BtstS => a::btst_static(am, imm as u8),
            F::Chk => a::chk(b1, am), F::Divs => a::divs(b1, am), F::Divu => a::divu(b1, am), F::Lea => a::lea(b1, am), F::Muls => a::muls(b1, am), F::Mulu => a::mulu(b1, am),
            F::Clr => a::clr(size, am), F::Neg => a::neg(size, am), F::Negx => a::negx(size, am), F::Not => a::not(size, am), F::Tst => a::tst(size, am),
            F::Cmpm => vec![a::cmpm(b1, size, b2)], F::Dbcc => a::dbcc(cond, b2, imm as i16).to_vec(), F::Exg => vec![a::exg(b1, dir, b2)], F::Ext => vec![a::ext(flag, b2)],
            F::Illegal => vec![a::illegal()], F::Nop => vec![a::nop()], F::Reset => vec![a::reset()], F::Rte => vec![a::rte()], F::Rtr => vec![a::rtr()], F::Rts => vec![a::rts()], F::Trapv => vec![a::trapv()],
            F::Jmp => a::jmp(am), F::Jsr => a::jsr(am), F::Moveccr => a::moveccr(am), F::Movefsr => a::movefsr(am), F::Movesr => a::movesr(am), F::Nbcd => a::nbcd(am), F::Pea => a::pea(am), F::Tas => a::tas(am),
            F::Link => a::link(b2, imm as i16).to_vec(), F::Move => a::r#move(size, am2, am), F::Movea => a::movea(size, b1, am), F::Moveusp => vec![a::moveusp(dir, b2)],
            F::Movem => a::movem(dir, size, am, imm as u16), F::Movep => a::movep(b1, dir, size, b2, imm as i16).to_vec(), F::Moveq => vec![a::moveq(b1, imm as i8)],
            F::Scc => a::scc(cond, am), F::Swap => vec![a::swap(b2)], F::Trap => vec![a::trap(b2)], F::Unlk => vec![a::unlk(b2)],
        }
    }
}

pub fn sz(s: Size) -> Sz { match s { Size::Byte => Sz::B, Size::Word => Sz::W, Size::Long => Sz::L } }
pub fn unsz(s: Sz) -> Size { match s { Sz::B => Size::Byte, Sz::W => Size::Word, Sz::L => Size::Long } }

/// Mode field and extension words of an addressing mode; `None` when the register does not exist.
pub fn lower(am: Am, s: Sz) -> Option<(Ea, Vec<u16>)> {
    let r = |r: u8| (r <= 7).then_some(r);
    Some(match am {
        Am::Drd(n) => (Ea::D(r(n)?), vec![]), Am::Ard(n) => (Ea::A(r(n)?), vec![]), Am::Ari(n) => (Ea::Ind(r(n)?), vec![]), Am::Ariwpo(n) => (Ea::Post(r(n)?), vec![]), Am::Ariwpr(n) => (Ea::Pre(r(n)?), vec![]),
        Am::Ariwd(n, d) => (Ea::Disp(r(n)?), vec![d as u16]), Am::Ariwi8(n, b) => (Ea::Idx(r(n)?), vec![b.0]), Am::AbsShort(x) => (Ea::AbsW, vec![x]), Am::AbsLong(x) => (Ea::AbsL, vec![(x >> 16) as u16, x as u16]),
        Am::Pciwd(_, d) => (Ea::PcD, vec![d as u16]), Am::Pciwi8(_, b) => (Ea::PcI, vec![b.0]),
        Am::Immediate(x) => (Ea::Imm, match s { Sz::L => vec![(x >> 16) as u16, x as u16], Sz::W => vec![x as u16], Sz::B => vec![x as u16 & 0xFF] }),
    })
}

/// Opcode word of an instruction (manual, instruction format summary). Not checked for legality.
pub fn encode(i: &Ins) -> u16 {
    let s2 = |s: Sz| match s { Sz::B => 0u16, Sz::W => 1, Sz::L => 2 } << 6;
    let h = |r: u8| ((r & 7) as u16) << 9;
    let l = |r: u8| (r & 7) as u16;
    let b = |x: bool, n: u16| (x as u16) << n;
    let immk = |k: Alu| match k { Alu::Or => 0x0000u16, Alu::And => 0x0200, Alu::Sub => 0x0400, Alu::Add => 0x0600, Alu::Eor => 0x0A00, Alu::Cmp => 0x0C00 };
    let bitk = |k: Bit| match k { Bit::Tst => 0u16, Bit::Chg => 0x40, Bit::Clr => 0x80, Bit::Set => 0xC0 };
    let shk = |k: Sh| match k { Sh::As => 0u16, Sh::Ls => 1, Sh::Rox => 2, Sh::Ro => 3 };
    match *i {
        Ins::CcrImm(k) => immk(k) | 0x3C, Ins::SrImm(k) => immk(k) | 0x7C,
        Ins::AluImm { k, sz, ea } => immk(k) | s2(sz) | ea.bits(),
        Ins::BitDyn { k, dn, ea } => 0x0100 | h(dn) | bitk(k) | ea.bits(), Ins::BitImm { k, ea } => 0x0800 | bitk(k) | ea.bits(),
        Ins::Movep { dn, an, long, to_mem } => 0x0108 | h(dn) | b(to_mem, 7) | b(long, 6) | l(an),
        Ins::Move { sz, src, dst } => mv(sz) | src.bits() | swap6(dst.bits()), Ins::Movea { sz, src, an } => mv(sz) | src.bits() | h(an) | 0x40,
        Ins::FromSr(ea) => 0x40C0 | ea.bits(), Ins::ToCcr(ea) => 0x44C0 | ea.bits(), Ins::ToSr(ea) => 0x46C0 | ea.bits(),
        Ins::Negx(s, ea) => 0x4000 | s2(s) | ea.bits(), Ins::Clr(s, ea) => 0x4200 | s2(s) | ea.bits(), Ins::Neg(s, ea) => 0x4400 | s2(s) | ea.bits(), Ins::Not(s, ea) => 0x4600 | s2(s) | ea.bits(),
        Ins::Tst(s, ea) => 0x4A00 | s2(s) | ea.bits(), Ins::Nbcd(ea) => 0x4800 | ea.bits(), Ins::Pea(ea) => 0x4840 | ea.bits(), Ins::Swap(r) => 0x4840 | l(r),
        Ins::Ext { long, dn } => 0x4880 | b(long, 6) | l(dn), Ins::Movem { to_mem, long, ea } => 0x4880 | b(!to_mem, 10) | b(long, 6) | ea.bits(), Ins::Tas(ea) => 0x4AC0 | ea.bits(),
        Ins::Illegal => 0x4AFC, Ins::Trap(v) => 0x4E40 | v as u16 & 15, Ins::Link(r) => 0x4E50 | l(r), Ins::Unlk(r) => 0x4E58 | l(r), Ins::Usp { to_usp, an } => 0x4E60 | b(!to_usp, 3) | l(an),
        Ins::Reset => 0x4E70, Ins::Nop => 0x4E71, Ins::Stop => 0x4E72, Ins::Rte => 0x4E73, Ins::Rts => 0x4E75, Ins::Trapv => 0x4E76, Ins::Rtr => 0x4E77,
        Ins::Jsr(ea) => 0x4E80 | ea.bits(), Ins::Jmp(ea) => 0x4EC0 | ea.bits(), Ins::Chk { dn, ea } => 0x4180 | h(dn) | ea.bits(), Ins::Lea { an, ea } => 0x41C0 | h(an) | ea.bits(),
        Ins::Addq { n, sz, ea } => 0x5000 | h(n) | s2(sz) | ea.bits(), Ins::Subq { n, sz, ea } => 0x5100 | h(n) | s2(sz) | ea.bits(),
        Ins::Scc { cc, ea } => 0x50C0 | (cc as u16) << 8 | ea.bits(), Ins::Dbcc { cc, dn } => 0x50C8 | (cc as u16) << 8 | l(dn),
        Ins::Bra(d) => 0x6000 | d as u8 as u16, Ins::Bsr(d) => 0x6100 | d as u8 as u16, Ins::Bcc { cc, d } => 0x6000 | (cc as u16) << 8 | d as u8 as u16,
        Ins::Moveq { dn, v } => 0x7000 | h(dn) | v as u8 as u16,
        Ins::Alu { k, dn, sz, ea, to_ea } => {
            let top = match k { Alu::Or => 0x8000u16, Alu::Sub => 0x9000, Alu::Cmp | Alu::Eor => 0xB000, Alu::And => 0xC000, Alu::Add => 0xD000 };
            top | h(dn) | b(to_ea, 8) | s2(sz) | ea.bits()
        },
        Ins::Mul { signed, dn, ea } => if signed { 0xC1C0 | h(dn) | ea.bits() } else { 0xC0C0 | h(dn) | ea.bits() },
        Ins::Div { signed, dn, ea } => if signed { 0x81C0 | h(dn) | ea.bits() } else { 0x80C0 | h(dn) | ea.bits() },
        Ins::Abcd { rx, ry, mem } => 0xC100 | h(rx) | b(mem, 3) | l(ry), Ins::Sbcd { rx, ry, mem } => 0x8100 | h(rx) | b(mem, 3) | l(ry),
        Ins::AluA { k, an, sz, ea } => (match k { Alu::Sub => 0x90C0u16, Alu::Cmp => 0xB0C0, _ => 0xD0C0 }) | h(an) | b(sz == Sz::L, 8) | ea.bits(),
        Ins::Addx { rx, ry, sz, mem } => 0xD100 | h(rx) | s2(sz) | b(mem, 3) | l(ry), Ins::Subx { rx, ry, sz, mem } => 0x9100 | h(rx) | s2(sz) | b(mem, 3) | l(ry),
        Ins::Cmpm { ax, ay, sz } => 0xB108 | h(ax) | s2(sz) | l(ay), Ins::Exg { k, rx, ry } => (match k { Exg::Data => 0xC140u16, Exg::Addr => 0xC148, Exg::DataAddr => 0xC188 }) | h(rx) | l(ry),
        Ins::ShReg { k, left, sz, by_reg, cnt, dn } => 0xE000 | h(cnt) | b(left, 8) | s2(sz) | b(by_reg, 5) | shk(k) << 3 | l(dn), Ins::ShMem { k, left, ea } => 0xE0C0 | shk(k) << 9 | b(left, 8) | ea.bits(),
    }
}
fn mv(s: Sz) -> u16 { match s { Sz::B => 0x1000, Sz::W => 0x3000, Sz::L => 0x2000 } }
fn swap6(x: u16) -> u16 { (x & 7) << 9 | (x >> 3 & 7) << 6 }

/// What the call must emit, with the instruction it means; `None` when it must be refused.
pub fn spec(c: &Call) -> Option<(Ins, Vec<u16>)> {
    let Call { f, r1, r2, dir, size, am, am2, imm, cond, flag } = *c;
    let s = sz(size);
    let r = |x: u16| (x <= 7).then_some(x as u8);
    let pair = |d: Direction, x: Direction, y: Direction| if d == x { Some(false) } else if d == y { Some(true) } else { None };
    let mm = || pair(dir, Direction::RegisterToRegister, Direction::MemoryToMemory);
    let to_ea = || pair(dir, Direction::DstReg, Direction::DstEa);
    let left = || pair(dir, Direction::Right, Direction::Left);
    let to_mem = || pair(dir, Direction::MemoryToRegister, Direction::RegisterToMemory);
    let cc = cond as u8;
    let mut pre: Vec<u16> = vec![]; // extension words before those of the effective address
    let mut ext: Vec<u16> = vec![];
    let mut ea = |s: Sz| -> Option<Ea> { let (e, x) = lower(am, s)?; ext = x; Some(e) };
    let immw = |s: Sz| match s { Sz::L => vec![(imm >> 16) as u16, imm as u16], Sz::W => vec![imm as u16], Sz::B => vec![imm as u16 & 0xFF] };
    let branch = |d: i16| if d == 0 || d < -128 || d > 127 { (0i8, vec![d as u16]) } else { (d as i8, vec![]) };
    let nob = || (s != Sz::B).then_some(());
    let ins = match f {
        F::Abcd => Ins::Abcd { rx: r(r1)?, ry: r(r2)?, mem: mm()? }, F::Sbcd => Ins::Sbcd { rx: r(r1)?, ry: r(r2)?, mem: mm()? },
        F::Addx => Ins::Addx { rx: r(r1)?, ry: r(r2)?, sz: s, mem: mm()? }, F::Subx => Ins::Subx { rx: r(r1)?, ry: r(r2)?, sz: s, mem: mm()? },
        F::Add => Ins::Alu { k: Alu::Add, dn: r(r1)?, sz: s, ea: ea(s)?, to_ea: to_ea()? }, F::And => Ins::Alu { k: Alu::And, dn: r(r1)?, sz: s, ea: ea(s)?, to_ea: to_ea()? },
        F::Or => Ins::Alu { k: Alu::Or, dn: r(r1)?, sz: s, ea: ea(s)?, to_ea: to_ea()? }, F::Sub => Ins::Alu { k: Alu::Sub, dn: r(r1)?, sz: s, ea: ea(s)?, to_ea: to_ea()? },
        F::Cmp => Ins::Alu { k: Alu::Cmp, dn: r(r1)?, sz: s, ea: ea(s)?, to_ea: false }, F::Eor => Ins::Alu { k: Alu::Eor, dn: r(r1)?, sz: s, ea: ea(s)?, to_ea: true },
        F::Adda => { nob()?; Ins::AluA { k: Alu::Add, an: r(r1)?, sz: s, ea: ea(s)? } }, F::Suba => { nob()?; Ins::AluA { k: Alu::Sub, an: r(r1)?, sz: s, ea: ea(s)? } },
        F::Cmpa => { nob()?; Ins::AluA { k: Alu::Cmp, an: r(r1)?, sz: s, ea: ea(s)? } },
        F::Addi | F::Andi | F::Cmpi | F::Eori | F::Ori | F::Subi => {
            let k = match f { F::Addi => Alu::Add, F::Andi => Alu::And, F::Cmpi => Alu::Cmp, F::Eori => Alu::Eor, F::Ori => Alu::Or, _ => Alu::Sub };
            pre = immw(s);
            Ins::AluImm { k, sz: s, ea: ea(s)? }
        },
        F::Addq | F::Subq => { if !(1..=8).contains(&r1) { return None; } let n = r1 as u8; if f == F::Addq { Ins::Addq { n, sz: s, ea: ea(s)? } } else { Ins::Subq { n, sz: s, ea: ea(s)? } } },
        F::Andiccr => { pre = vec![imm as u16 & 0xFF]; Ins::CcrImm(Alu::And) }, F::Eoriccr => { pre = vec![imm as u16 & 0xFF]; Ins::CcrImm(Alu::Eor) }, F::Oriccr => { pre = vec![imm as u16 & 0xFF]; Ins::CcrImm(Alu::Or) },
        F::Andisr => { pre = vec![imm as u16]; Ins::SrImm(Alu::And) }, F::Eorisr => { pre = vec![imm as u16]; Ins::SrImm(Alu::Eor) }, F::Orisr => { pre = vec![imm as u16]; Ins::SrImm(Alu::Or) },
        F::Stop => { pre = vec![imm as u16]; Ins::Stop },
        F::Asm => Ins::ShMem { k: Sh::As, left: left()?, ea: ea(Sz::W)? }, F::Lsm => Ins::ShMem { k: Sh::Ls, left: left()?, ea: ea(Sz::W)? }, F::Rom => Ins::ShMem { k: Sh::Ro, left: left()?, ea: ea(Sz::W)? },
        F::Roxm => Ins::ShMem { k: Sh::Rox, left: left()?, ea: ea(Sz::W)? },
        F::Asr | F::Lsr | F::Ror | F::Roxr => {
            let k = match f { F::Asr => Sh::As, F::Lsr => Sh::Ls, F::Ror => Sh::Ro, _ => Sh::Rox };
            Ins::ShReg { k, left: left()?, sz: s, by_reg: flag, cnt: r(r1)?, dn: r(r2)? }
        },
        F::Bcc => { if cc < 2 { return None; } let (d, x) = branch(imm as i16); pre = x; Ins::Bcc { cc, d } },
        F::Bra => { let (d, x) = branch(imm as i16); pre = x; Ins::Bra(d) }, F::Bsr => { let (d, x) = branch(imm as i16); pre = x; Ins::Bsr(d) },
        F::BchgD => Ins::BitDyn { k: Bit::Chg, dn: r(r1)?, ea: ea(Sz::B)? }, F::BclrD => Ins::BitDyn { k: Bit::Clr, dn: r(r1)?, ea: ea(Sz::B)? }, F::BsetD => Ins::BitDyn { k: Bit::Set, dn: r(r1)?, ea: ea(Sz::B)? },
        F::BtstD => Ins::BitDyn { k: Bit::Tst, dn: r(r1)?, ea: ea(Sz::B)? },
        F::BchgS | F::BclrS | F::BsetS | F::BtstS => {
            pre = vec![imm as u16 & 0xFF];
            Ins::BitImm { k: match f { F::BchgS => Bit::Chg, F::BclrS => Bit::Clr, F::BsetS => Bit::Set, _ => Bit::Tst }, ea: ea(Sz::B)? }
        },
        F::Chk => Ins::Chk { dn: r(r1)?, ea: ea(Sz::W)? }, F::Divs => Ins::Div { signed: true, dn: r(r1)?, ea: ea(Sz::W)? }, F::Divu => Ins::Div { signed: false, dn: r(r1)?, ea: ea(Sz::W)? },
        F::Muls => Ins::Mul { signed: true, dn: r(r1)?, ea: ea(Sz::W)? }, F::Mulu => Ins::Mul { signed: false, dn: r(r1)?, ea: ea(Sz::W)? }, F::Lea => Ins::Lea { an: r(r1)?, ea: ea(Sz::L)? },
        F::Clr => Ins::Clr(s, ea(s)?), F::Neg => Ins::Neg(s, ea(s)?), F::Negx => Ins::Negx(s, ea(s)?), F::Not => Ins::Not(s, ea(s)?), F::Tst => Ins::Tst(s, ea(s)?),
        F::Cmpm => Ins::Cmpm { ax: r(r1)?, ay: r(r2)?, sz: s }, F::Dbcc => { pre = vec![imm as u16]; Ins::Dbcc { cc, dn: r(r2)? } },
        F::Exg => Ins::Exg { k: match dir { Direction::ExchangeData => Exg::Data, Direction::ExchangeAddress => Exg::Addr, Direction::ExchangeDataAddress => Exg::DataAddr, _ => return None }, rx: r(r1)?, ry: r(r2)? },
        F::Ext => Ins::Ext { long: flag, dn: r(r2)? },
        F::Illegal => Ins::Illegal, F::Nop => Ins::Nop, F::Reset => Ins::Reset, F::Rte => Ins::Rte, F::Rtr => Ins::Rtr, F::Rts => Ins::Rts, F::Trapv => Ins::Trapv,
        F::Jmp => Ins::Jmp(ea(Sz::L)?), F::Jsr => Ins::Jsr(ea(Sz::L)?), F::Moveccr => Ins::ToCcr(ea(Sz::W)?), F::Movefsr => Ins::FromSr(ea(Sz::W)?), F::Movesr => Ins::ToSr(ea(Sz::W)?), F::Nbcd => Ins::Nbcd(ea(Sz::B)?),
        F::Pea => Ins::Pea(ea(Sz::L)?), F::Tas => Ins::Tas(ea(Sz::B)?),
        F::Link => { pre = vec![imm as u16]; Ins::Link(r(r2)?) },
        F::Move => { let src = ea(s)?; let (dst, x) = lower(am2, s)?; ext.extend(x); Ins::Move { sz: s, src, dst } },
        F::Movea => { nob()?; Ins::Movea { sz: s, src: ea(s)?, an: r(r1)? } },
        F::Moveusp => Ins::Usp { to_usp: pair(dir, Direction::UspToRegister, Direction::RegisterToUsp)?, an: r(r2)? },
        F::Movem => { nob()?; pre = vec![imm as u16]; Ins::Movem { to_mem: to_mem()?, long: s == Sz::L, ea: ea(Sz::W)? } },
        F::Movep => { nob()?; pre = vec![imm as u16]; Ins::Movep { dn: r(r1)?, an: r(r2)?, long: s == Sz::L, to_mem: to_mem()? } },
        F::Moveq => Ins::Moveq { dn: r(r1)?, v: imm as i8 },
        F::Scc => Ins::Scc { cc, ea: ea(Sz::B)? }, F::Swap => Ins::Swap(r(r2)?), F::Trap => { if r2 > 15 { return None; } Ins::Trap(r2 as u8) }, F::Unlk => Ins::Unlk(r(r2)?),
    };
    let op = encode(&ins);
    // The operand combination exists exactly when its encoding means that instruction.
    if decode(op) != Some(ins) { return None; }
    let mut w = vec![op];
    w.extend(pre);
    w.extend(ext);
    Some((ins, w))
}

/// Does the word list differ only in bits the processor ignores?
pub fn same_words(ins: &Ins, got: &[u16], want: &[u16]) -> bool {
    if got.len() != want.len() { return false; }
    let byte_imm = match *ins {
        Ins::AluImm { sz: Sz::B, .. } | Ins::CcrImm(_) | Ins::BitImm { .. } => Some(1),
        Ins::Move { sz: Sz::B, src: Ea::Imm, .. } | Ins::Alu { sz: Sz::B, ea: Ea::Imm, .. } | Ins::BitDyn { ea: Ea::Imm, .. } => Some(1),
        _ => None,
    };
    got.iter().zip(want).enumerate().all(|(i, (g, w))| if byte_imm == Some(i) { g & 0xFF == w & 0xFF } else { g == w })
}

/// Which register numbers the function takes as bytes or words.
pub fn regs_are_words(f: F) -> bool { matches!(f, F::Asr | F::Lsr | F::Ror | F::Roxr) }
pub fn has_imm_operand(f: F) -> bool { matches!(f, F::Addi | F::Andi | F::Cmpi | F::Eori | F::Ori | F::Subi) }

pub fn gen_am(rng: &mut Rng, reg: u8) -> Am {
    let w = crate::lockstep::gen_ext(rng);
    match rng.below(12) {
        0 => Am::Drd(reg), 1 => Am::Ard(reg), 2 => Am::Ari(reg), 3 => Am::Ariwpo(reg), 4 => Am::Ariwpr(reg), 5 => Am::Ariwd(reg, w as i16), 6 => Am::Ariwi8(reg, Bew(w)), 7 => Am::AbsShort(w),
        8 => Am::AbsLong((crate::lockstep::gen_ext(rng) as u32) << 16 | w as u32), 9 => Am::Pciwd(rng.u32(), w as i16), 10 => Am::Pciwi8(rng.u32(), Bew(w)), _ => Am::Immediate(rng.operand()),
    }
}

/// The call that re-creates a decoded instruction, from what the crate reports about it.
pub fn call_of(isa: Isa, o: Operands, opcode: u16) -> Option<Call> {
    let dynamic = opcode & 0x100 != 0;
    let name = format!("{isa:?}");
    let f = *FS.iter().find(|f| {
        let n = format!("{f:?}");
        match name.as_str() {
            "Bchg" | "Bclr" | "Bset" | "Btst" => n == format!("{name}{}", if dynamic { "D" } else { "S" }),
            _ => n == name,
        }
    })?;
    let mut c = Call::new(f);
    match o {
        Operands::NoOperands => {},
        Operands::Immediate(i) => c.imm = i as u32,
        Operands::SizeEffectiveAddressImmediate(s, am, i) => { c.size = s; c.am = am; c.imm = i; },
        Operands::EffectiveAddressCount(am, n) => { c.am = am; c.r1 = n as u16; c.imm = n as u32; },
        Operands::EffectiveAddress(am) => c.am = am,
        Operands::SizeEffectiveAddress(s, am) => { c.size = s; c.am = am; },
        Operands::RegisterEffectiveAddress(r, am) => { c.r1 = r as u16; c.am = am; },
        Operands::RegisterDirectionSizeRegisterDisplacement(d, dir, s, a, disp) => { c.r1 = d as u16; c.dir = dir; c.size = s; c.r2 = a as u16; c.imm = disp as u32; },
        Operands::SizeRegisterEffectiveAddress(s, r, am) => { c.size = s; c.r1 = r as u16; c.am = am; },
        Operands::SizeEffectiveAddressEffectiveAddress(s, dst, src) => { c.size = s; c.am = src; c.am2 = dst; },
        Operands::RegisterOpmodeRegister(x, d, y) => { c.r1 = x as u16; c.dir = d; c.r2 = y as u16; },
        Operands::OpmodeRegister(m, r) => { c.flag = m == 3; c.r2 = r as u16; },
        Operands::Vector(v) => c.r2 = v as u16,
        Operands::RegisterDisplacement(r, d) => { c.r2 = r as u16; c.imm = d as u32; },
        Operands::Register(r) => c.r2 = r as u16,
        Operands::DirectionRegister(d, r) => { c.dir = d; c.r2 = r as u16; },
        Operands::DirectionSizeEffectiveAddressList(d, s, am, l) => { c.dir = d; c.size = s; c.am = am; c.imm = l as u32; },
        Operands::DataSizeEffectiveAddress(n, s, am) => { c.r1 = if n == 0 { 8 } else { n as u16 }; c.size = s; c.am = am; },
        Operands::ConditionEffectiveAddress(cc, am) => { c.cond = cc as usize; c.am = am; },
        Operands::ConditionRegisterDisplacement(cc, r, d) => { c.cond = cc as usize; c.r2 = r as u16; c.imm = d as u32; },
        Operands::Displacement(d) => c.imm = d as u32,
        Operands::ConditionDisplacement(cc, d) => { c.cond = cc as usize; c.imm = d as u32; },
        Operands::RegisterData(r, d) => { c.r1 = r as u16; c.imm = d as u32; },
        Operands::RegisterDirectionSizeEffectiveAddress(r, d, s, am) => { c.r1 = r as u16; c.dir = d; c.size = s; c.am = am; },
        Operands::RegisterSizeEffectiveAddress(r, s, am) => { c.r1 = r as u16; c.size = s; c.am = am; },
        Operands::RegisterSizeModeRegister(x, s, m, y) => { c.r1 = x as u16; c.size = s; c.dir = m; c.r2 = y as u16; },
        Operands::RegisterSizeRegister(x, s, y) => { c.r1 = x as u16; c.size = s; c.r2 = y as u16; },
        Operands::DirectionEffectiveAddress(d, am) => { c.dir = d; c.am = am; },
        Operands::RotationDirectionSizeModeRegister(n, d, s, m, r) => { c.r1 = n as u16; c.dir = d; c.size = s; c.flag = m; c.r2 = r as u16; },
    }
    Some(c)
}

/// The operands decoding must report, from the independent opcode map. `None` for words that are not instructions.
pub fn operands(op: u16, ext: &[u16], pc: u32) -> Option<Operands> {
    let ins = decode(op)?;
    let mut pos = 0usize;
    let mut rd = |e: Ea, s: Sz, skip: usize| -> Am {
        if pos == 0 { pos = skip; }
        let at = pc.wrapping_add(2 + 2 * pos as u32);
        let w = |i: usize| ext[pos + i];
        let am = match e {
            Ea::D(r) => Am::Drd(r), Ea::A(r) => Am::Ard(r), Ea::Ind(r) => Am::Ari(r), Ea::Post(r) => Am::Ariwpo(r), Ea::Pre(r) => Am::Ariwpr(r), Ea::Disp(r) => Am::Ariwd(r, w(0) as i16), Ea::Idx(r) => Am::Ariwi8(r, Bew(w(0))),
            Ea::AbsW => Am::AbsShort(w(0)), Ea::AbsL => Am::AbsLong((w(0) as u32) << 16 | w(1) as u32), Ea::PcD => Am::Pciwd(at, w(0) as i16), Ea::PcI => Am::Pciwi8(at, Bew(w(0))),
            Ea::Imm => Am::Immediate(match s { Sz::L => (w(0) as u32) << 16 | w(1) as u32, _ => w(0) as u32 }),
        };
        pos += ea_words(e, s) as usize;
        am
    };
    let mdir = |to_mem: bool| if to_mem { Direction::RegisterToMemory } else { Direction::MemoryToRegister };
    let mm = |m: bool| if m { Direction::MemoryToMemory } else { Direction::RegisterToRegister };
    let lr = |l: bool| if l { Direction::Left } else { Direction::Right };
    let wl = |long: bool| if long { Size::Long } else { Size::Word };
    let disp = |d: i8| if d == 0 { ext[0] as i16 } else { d as i16 };
    Some(match ins {
        Ins::CcrImm(_) | Ins::SrImm(_) | Ins::Stop => Operands::Immediate(ext[0]),
        Ins::AluImm { sz, ea, .. } => {
            let n = if sz == Sz::L { 2 } else { 1 };
            let imm = if sz == Sz::L { (ext[0] as u32) << 16 | ext[1] as u32 } else { ext[0] as u32 };
            Operands::SizeEffectiveAddressImmediate(unsz(sz), rd(ea, sz, n), imm)
        },
        Ins::BitDyn { dn, ea, .. } => Operands::EffectiveAddressCount(rd(ea, Sz::B, 0), dn),
        Ins::BitImm { ea, .. } => Operands::EffectiveAddressCount(rd(ea, Sz::B, 1), ext[0] as u8),
        Ins::Movep { dn, an, long, to_mem } => Operands::RegisterDirectionSizeRegisterDisplacement(dn, mdir(to_mem), wl(long), an, ext[0] as i16),
        Ins::Move { sz, src, dst } => { let s = rd(src, sz, 0); let d = rd(dst, sz, 0); Operands::SizeEffectiveAddressEffectiveAddress(unsz(sz), d, s) },
        Ins::Movea { sz, src, an } => Operands::SizeRegisterEffectiveAddress(unsz(sz), an, rd(src, sz, 0)),
        Ins::FromSr(ea) | Ins::ToCcr(ea) | Ins::ToSr(ea) => Operands::EffectiveAddress(rd(ea, Sz::W, 0)),
        Ins::Nbcd(ea) | Ins::Tas(ea) => Operands::EffectiveAddress(rd(ea, Sz::B, 0)),
        Ins::Pea(ea) | Ins::Jsr(ea) | Ins::Jmp(ea) => Operands::EffectiveAddress(rd(ea, Sz::L, 0)),
        Ins::Negx(s, ea) | Ins::Clr(s, ea) | Ins::Neg(s, ea) | Ins::Not(s, ea) | Ins::Tst(s, ea) => Operands::SizeEffectiveAddress(unsz(s), rd(ea, s, 0)),
        Ins::Swap(r) | Ins::Unlk(r) => Operands::Register(r),
        Ins::Ext { long, dn } => Operands::OpmodeRegister(if long { 3 } else { 2 }, dn),
        Ins::Movem { to_mem, long, ea } => Operands::DirectionSizeEffectiveAddressList(mdir(to_mem), wl(long), rd(ea, Sz::W, 1), ext[0]),
        Ins::Illegal | Ins::Reset | Ins::Nop | Ins::Rte | Ins::Rts | Ins::Trapv | Ins::Rtr => Operands::NoOperands,
        Ins::Trap(v) => Operands::Vector(v),
        Ins::Link(r) => Operands::RegisterDisplacement(r, ext[0] as i16),
        Ins::Usp { to_usp, an } => Operands::DirectionRegister(if to_usp { Direction::RegisterToUsp } else { Direction::UspToRegister }, an),
        Ins::Chk { dn, ea } | Ins::Mul { dn, ea, .. } | Ins::Div { dn, ea, .. } => Operands::RegisterEffectiveAddress(dn, rd(ea, Sz::W, 0)),
        Ins::Lea { an, ea } => Operands::RegisterEffectiveAddress(an, rd(ea, Sz::L, 0)),
        Ins::Addq { n, sz, ea } | Ins::Subq { n, sz, ea } => Operands::DataSizeEffectiveAddress(n & 7, unsz(sz), rd(ea, sz, 0)),
        Ins::Scc { cc, ea } => Operands::ConditionEffectiveAddress(cc, rd(ea, Sz::B, 0)),
        Ins::Dbcc { cc, dn } => Operands::ConditionRegisterDisplacement(cc, dn, ext[0] as i16),
        Ins::Bra(d) | Ins::Bsr(d) => Operands::Displacement(disp(d)),
        Ins::Bcc { cc, d } => Operands::ConditionDisplacement(cc, disp(d)),
        Ins::Moveq { dn, v } => Operands::RegisterData(dn, v),
        Ins::Alu { dn, sz, ea, to_ea, .. } => Operands::RegisterDirectionSizeEffectiveAddress(dn, if to_ea { Direction::DstEa } else { Direction::DstReg }, unsz(sz), rd(ea, sz, 0)),
        Ins::AluA { an, sz, ea, .. } => Operands::RegisterSizeEffectiveAddress(an, unsz(sz), rd(ea, sz, 0)),
        Ins::Abcd { rx, ry, mem } | Ins::Sbcd { rx, ry, mem } => Operands::RegisterSizeModeRegister(rx, Size::Byte, mm(mem), ry),
        Ins::Addx { rx, ry, sz, mem } | Ins::Subx { rx, ry, sz, mem } => Operands::RegisterSizeModeRegister(rx, unsz(sz), mm(mem), ry),
        Ins::Cmpm { ax, ay, sz } => Operands::RegisterSizeRegister(ax, unsz(sz), ay),
        Ins::Exg { k, rx, ry } => Operands::RegisterOpmodeRegister(rx, match k { Exg::Data => Direction::ExchangeData, Exg::Addr => Direction::ExchangeAddress, Exg::DataAddr => Direction::ExchangeDataAddress }, ry),
        Ins::ShReg { left, sz, by_reg, cnt, dn, .. } => Operands::RotationDirectionSizeModeRegister(cnt, lr(left), unsz(sz), by_reg, dn),
        Ins::ShMem { left, ea, .. } => Operands::DirectionEffectiveAddress(lr(left), rd(ea, Sz::W, 0)),
    })
}

/// Same operands, apart from the ignored upper byte of byte immediates.
pub fn same_operands(x: &Operands, y: &Operands) -> bool {
    fn am(s: Size, a: &Am) -> Am { match *a { Am::Immediate(i) if s == Size::Byte => Am::Immediate(i & 0xFF), a => a } }
    let norm = |o: &Operands| match *o {
        Operands::SizeEffectiveAddressImmediate(s, a, i) => Operands::SizeEffectiveAddressImmediate(s, am(s, &a), if s == Size::Byte { i & 0xFF } else { i }),
        Operands::EffectiveAddressCount(a, n) => Operands::EffectiveAddressCount(am(Size::Byte, &a), n),
        Operands::SizeEffectiveAddressEffectiveAddress(s, d, a) => Operands::SizeEffectiveAddressEffectiveAddress(s, d, am(s, &a)),
        Operands::RegisterDirectionSizeEffectiveAddress(r, d, s, a) => Operands::RegisterDirectionSizeEffectiveAddress(r, d, s, am(s, &a)),
        o => o,
    };
    norm(x) == norm(y)
}
