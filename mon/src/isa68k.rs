//! Opcode map of the MC68000, written from the programmer's manual (instruction format summary), independent of the
//! decoder under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sz { B, W, L }
impl Sz {
    pub fn bytes(self) -> u32 { match self { Sz::B => 1, Sz::W => 2, Sz::L => 4 } }
    pub fn bits(self) -> u32 { self.bytes() * 8 }
    pub fn mask(self) -> u32 { match self { Sz::B => 0xFF, Sz::W => 0xFFFF, Sz::L => 0xFFFF_FFFF } }
    pub fn msb(self) -> u32 { match self { Sz::B => 0x80, Sz::W => 0x8000, Sz::L => 0x8000_0000 } }
    pub fn from2(x: u16) -> Option<Sz> { match x & 3 { 0 => Some(Sz::B), 1 => Some(Sz::W), 2 => Some(Sz::L), _ => None } }
    pub fn ch(self) -> char { match self { Sz::B => 'B', Sz::W => 'W', Sz::L => 'L' } }
}

/// Effective-address field: mode and register as encoded.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ea { D(u8), A(u8), Ind(u8), Post(u8), Pre(u8), Disp(u8), Idx(u8), AbsW, AbsL, PcD, PcI, Imm }
impl Ea {
    pub fn from(mode: u16, reg: u16) -> Option<Ea> {
        let r = (reg & 7) as u8;
        Some(match mode & 7 {
            0 => Ea::D(r), 1 => Ea::A(r), 2 => Ea::Ind(r), 3 => Ea::Post(r), 4 => Ea::Pre(r), 5 => Ea::Disp(r), 6 => Ea::Idx(r),
            _ => match r { 0 => Ea::AbsW, 1 => Ea::AbsL, 2 => Ea::PcD, 3 => Ea::PcI, 4 => Ea::Imm, _ => return None },
        })
    }
    pub fn low6(op: u16) -> Option<Ea> { Ea::from(op >> 3, op) }
    pub fn bits(self) -> u16 {
        match self {
            Ea::D(r) => r as u16, Ea::A(r) => 8 | r as u16, Ea::Ind(r) => 16 | r as u16, Ea::Post(r) => 24 | r as u16, Ea::Pre(r) => 32 | r as u16,
            Ea::Disp(r) => 40 | r as u16, Ea::Idx(r) => 48 | r as u16, Ea::AbsW => 56, Ea::AbsL => 57, Ea::PcD => 58, Ea::PcI => 59, Ea::Imm => 60,
        }
    }
    pub fn all() -> Vec<Ea> {
        let mut v = Vec::new();
        for b in 0..64u16 { if let Some(e) = Ea::low6(b) { v.push(e); } }
        v
    }
    pub fn pcrel(self) -> bool { matches!(self, Ea::PcD | Ea::PcI) }
    pub fn data(self) -> bool { !matches!(self, Ea::A(_)) }
    pub fn alterable(self) -> bool { !self.pcrel() && self != Ea::Imm }
    pub fn memory(self) -> bool { !matches!(self, Ea::D(_) | Ea::A(_)) }
    pub fn data_alt(self) -> bool { self.data() && self.alterable() }
    pub fn mem_alt(self) -> bool { self.memory() && self.alterable() }
    pub fn control(self) -> bool { matches!(self, Ea::Ind(_) | Ea::Disp(_) | Ea::Idx(_) | Ea::AbsW | Ea::AbsL | Ea::PcD | Ea::PcI) }
    pub fn ctl_alt(self) -> bool { self.control() && self.alterable() }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Alu { Or, And, Sub, Add, Eor, Cmp }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bit { Tst, Chg, Clr, Set }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sh { As, Ls, Rox, Ro }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Exg { Data, Addr, DataAddr }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ins {
    CcrImm(Alu), SrImm(Alu),
    AluImm { k: Alu, sz: Sz, ea: Ea },
    BitDyn { k: Bit, dn: u8, ea: Ea }, BitImm { k: Bit, ea: Ea },
    Movep { dn: u8, an: u8, long: bool, to_mem: bool },
    Move { sz: Sz, src: Ea, dst: Ea }, Movea { sz: Sz, src: Ea, an: u8 },
    FromSr(Ea), ToCcr(Ea), ToSr(Ea),
    Negx(Sz, Ea), Clr(Sz, Ea), Neg(Sz, Ea), Not(Sz, Ea), Tst(Sz, Ea),
    Nbcd(Ea), Pea(Ea), Swap(u8), Ext { long: bool, dn: u8 }, Movem { to_mem: bool, long: bool, ea: Ea }, Tas(Ea),
    Illegal, Trap(u8), Link(u8), Unlk(u8), Usp { to_usp: bool, an: u8 }, Reset, Nop, Stop, Rte, Rts, Trapv, Rtr, Jsr(Ea), Jmp(Ea),
    Chk { dn: u8, ea: Ea }, Lea { an: u8, ea: Ea },
    Addq { n: u8, sz: Sz, ea: Ea }, Subq { n: u8, sz: Sz, ea: Ea }, Scc { cc: u8, ea: Ea }, Dbcc { cc: u8, dn: u8 },
    Bra(i8), Bsr(i8), Bcc { cc: u8, d: i8 },
    Moveq { dn: u8, v: i8 },
    Alu { k: Alu, dn: u8, sz: Sz, ea: Ea, to_ea: bool },
    Mul { signed: bool, dn: u8, ea: Ea }, Div { signed: bool, dn: u8, ea: Ea },
    /// rx destination, ry source.
    Abcd { rx: u8, ry: u8, mem: bool }, Sbcd { rx: u8, ry: u8, mem: bool },
    AluA { k: Alu, an: u8, sz: Sz, ea: Ea },
    Addx { rx: u8, ry: u8, sz: Sz, mem: bool }, Subx { rx: u8, ry: u8, sz: Sz, mem: bool },
    Cmpm { ax: u8, ay: u8, sz: Sz }, Exg { k: Exg, rx: u8, ry: u8 },
    ShReg { k: Sh, left: bool, sz: Sz, by_reg: bool, cnt: u8, dn: u8 }, ShMem { k: Sh, left: bool, ea: Ea },
}

impl Ins {
    pub fn privileged(&self) -> bool {
        matches!(self, Ins::SrImm(_) | Ins::ToSr(_) | Ins::Usp { .. } | Ins::Reset | Ins::Stop | Ins::Rte)
    }
}

pub fn decode(op: u16) -> Option<Ins> {
    let r9 = ((op >> 9) & 7) as u8;
    let r0 = (op & 7) as u8;
    let mode = (op >> 3) & 7;
    let sz2 = Sz::from2(op >> 6);
    let ea = Ea::low6(op);
    match op >> 12 {
        0x0 => {
            if op & 0x0100 != 0 {
                if mode == 1 {
                    return Some(Ins::Movep { dn: r9, an: r0, long: op & 0x40 != 0, to_mem: op & 0x80 != 0 });
                }
                let k = [Bit::Tst, Bit::Chg, Bit::Clr, Bit::Set][((op >> 6) & 3) as usize];
                let ea = ea?;
                let ok = if k == Bit::Tst { ea.data() } else { ea.data_alt() };
                return ok.then_some(Ins::BitDyn { k, dn: r9, ea });
            }
            if r9 == 4 {
                let k = [Bit::Tst, Bit::Chg, Bit::Clr, Bit::Set][((op >> 6) & 3) as usize];
                let ea = ea?;
                let ok = if k == Bit::Tst { ea.data() && ea != Ea::Imm } else { ea.data_alt() };
                return ok.then_some(Ins::BitImm { k, ea });
            }
            let k = match r9 { 0 => Alu::Or, 1 => Alu::And, 2 => Alu::Sub, 3 => Alu::Add, 5 => Alu::Eor, 6 => Alu::Cmp, _ => return None };
            let sz = sz2?;
            let ea = ea?;
            if ea == Ea::Imm {
                if matches!(k, Alu::Or | Alu::And | Alu::Eor) {
                    return match sz { Sz::B => Some(Ins::CcrImm(k)), Sz::W => Some(Ins::SrImm(k)), Sz::L => None };
                }
                return None;
            }
            ea.data_alt().then_some(Ins::AluImm { k, sz, ea })
        },
        1 | 2 | 3 => {
            let sz = match op >> 12 { 1 => Sz::B, 3 => Sz::W, _ => Sz::L };
            let src = ea?;
            if sz == Sz::B && matches!(src, Ea::A(_)) { return None; }
            let dst = Ea::from(op >> 6, op >> 9)?;
            if let Ea::A(an) = dst { return (sz != Sz::B).then_some(Ins::Movea { sz, src, an }); }
            dst.data_alt().then_some(Ins::Move { sz, src, dst })
        },
        4 => decode4(op, r9, r0, mode, sz2, ea),
        5 => {
            let ea = ea?;
            match sz2 {
                None => {
                    let cc = ((op >> 8) & 15) as u8;
                    if let Ea::A(_) = ea { return Some(Ins::Dbcc { cc, dn: r0 }); }
                    ea.data_alt().then_some(Ins::Scc { cc, ea })
                },
                Some(sz) => {
                    if !ea.alterable() || sz == Sz::B && matches!(ea, Ea::A(_)) { return None; }
                    let n = if r9 == 0 { 8 } else { r9 };
                    Some(if op & 0x100 == 0 { Ins::Addq { n, sz, ea } } else { Ins::Subq { n, sz, ea } })
                },
            }
        },
        6 => {
            let d = op as u8 as i8;
            Some(match (op >> 8) & 15 { 0 => Ins::Bra(d), 1 => Ins::Bsr(d), cc => Ins::Bcc { cc: cc as u8, d } })
        },
        7 => (op & 0x100 == 0).then_some(Ins::Moveq { dn: r9, v: op as u8 as i8 }),
        8 => {
            match (op >> 6) & 7 {
                3 => { let ea = ea?; ea.data().then_some(Ins::Div { signed: false, dn: r9, ea }) },
                7 => { let ea = ea?; ea.data().then_some(Ins::Div { signed: true, dn: r9, ea }) },
                4 if mode <= 1 => Some(Ins::Sbcd { rx: r9, ry: r0, mem: mode == 1 }),
                _ => alu(Alu::Or, op, r9, sz2?, ea?),
            }
        },
        9 | 0xD => {
            let k = if op >> 12 == 9 { Alu::Sub } else { Alu::Add };
            match sz2 {
                None => Some(Ins::AluA { k, an: r9, sz: if op & 0x100 != 0 { Sz::L } else { Sz::W }, ea: ea? }),
                Some(sz) => {
                    if op & 0x100 != 0 && mode <= 1 {
                        let (rx, ry, mem) = (r9, r0, mode == 1);
                        return Some(if k == Alu::Sub { Ins::Subx { rx, ry, sz, mem } } else { Ins::Addx { rx, ry, sz, mem } });
                    }
                    alu(k, op, r9, sz, ea?)
                },
            }
        },
        0xB => {
            match sz2 {
                None => Some(Ins::AluA { k: Alu::Cmp, an: r9, sz: if op & 0x100 != 0 { Sz::L } else { Sz::W }, ea: ea? }),
                Some(sz) => {
                    if op & 0x100 == 0 {
                        let ea = ea?;
                        if sz == Sz::B && matches!(ea, Ea::A(_)) { return None; }
                        return Some(Ins::Alu { k: Alu::Cmp, dn: r9, sz, ea, to_ea: false });
                    }
                    if mode == 1 { return Some(Ins::Cmpm { ax: r9, ay: r0, sz }); }
                    let ea = ea?;
                    ea.data_alt().then_some(Ins::Alu { k: Alu::Eor, dn: r9, sz, ea, to_ea: true })
                },
            }
        },
        0xC => {
            match (op >> 6) & 7 {
                3 => { let ea = ea?; ea.data().then_some(Ins::Mul { signed: false, dn: r9, ea }) },
                7 => { let ea = ea?; ea.data().then_some(Ins::Mul { signed: true, dn: r9, ea }) },
                4 if mode <= 1 => Some(Ins::Abcd { rx: r9, ry: r0, mem: mode == 1 }),
                5 if mode == 0 => Some(Ins::Exg { k: Exg::Data, rx: r9, ry: r0 }),
                5 if mode == 1 => Some(Ins::Exg { k: Exg::Addr, rx: r9, ry: r0 }),
                6 if mode == 1 => Some(Ins::Exg { k: Exg::DataAddr, rx: r9, ry: r0 }),
                6 if mode == 0 => None,
                _ => alu(Alu::And, op, r9, sz2?, ea?),
            }
        },
        0xE => {
            let left = op & 0x100 != 0;
            let kinds = [Sh::As, Sh::Ls, Sh::Rox, Sh::Ro];
            match sz2 {
                Some(sz) => Some(Ins::ShReg { k: kinds[((op >> 3) & 3) as usize], left, sz, by_reg: op & 0x20 != 0, cnt: r9, dn: r0 }),
                None => {
                    if op & 0x800 != 0 { return None; }
                    let ea = ea?;
                    ea.mem_alt().then_some(Ins::ShMem { k: kinds[((op >> 9) & 3) as usize], left, ea })
                },
            }
        },
        _ => None,
    }
}

fn alu(k: Alu, op: u16, dn: u8, sz: Sz, ea: Ea) -> Option<Ins> {
    let to_ea = op & 0x100 != 0;
    let ok = if to_ea {
        ea.mem_alt()
    } else {
        match ea { Ea::A(_) => sz != Sz::B && matches!(k, Alu::Add | Alu::Sub), _ => true }
    };
    ok.then_some(Ins::Alu { k, dn, sz, ea, to_ea })
}

fn decode4(op: u16, r9: u8, r0: u8, mode: u16, sz2: Option<Sz>, ea: Option<Ea>) -> Option<Ins> {
    if op & 0x01C0 == 0x01C0 { let ea = ea?; return ea.control().then_some(Ins::Lea { an: r9, ea }); }
    if op & 0x01C0 == 0x0180 { let ea = ea?; return ea.data().then_some(Ins::Chk { dn: r9, ea }); }
    if op & 0x0100 != 0 { return None; }
    match (op >> 8) & 15 {
        0x0 => match sz2 {
            None => { let ea = ea?; ea.data_alt().then_some(Ins::FromSr(ea)) },
            Some(sz) => { let ea = ea?; ea.data_alt().then_some(Ins::Negx(sz, ea)) },
        },
        0x2 => { let sz = sz2?; let ea = ea?; ea.data_alt().then_some(Ins::Clr(sz, ea)) },
        0x4 => match sz2 {
            None => { let ea = ea?; ea.data().then_some(Ins::ToCcr(ea)) },
            Some(sz) => { let ea = ea?; ea.data_alt().then_some(Ins::Neg(sz, ea)) },
        },
        0x6 => match sz2 {
            None => { let ea = ea?; ea.data().then_some(Ins::ToSr(ea)) },
            Some(sz) => { let ea = ea?; ea.data_alt().then_some(Ins::Not(sz, ea)) },
        },
        0x8 => match (op >> 6) & 3 {
            0 => { let ea = ea?; ea.data_alt().then_some(Ins::Nbcd(ea)) },
            1 => { if mode == 0 { return Some(Ins::Swap(r0)); } let ea = ea?; ea.control().then_some(Ins::Pea(ea)) },
            x => {
                let long = x == 3;
                if mode == 0 { return Some(Ins::Ext { long, dn: r0 }); }
                let ea = ea?;
                (ea.ctl_alt() || matches!(ea, Ea::Pre(_))).then_some(Ins::Movem { to_mem: true, long, ea })
            },
        },
        0xA => match sz2 {
            None => {
                if op == 0x4AFC { return Some(Ins::Illegal); }
                let ea = ea?;
                ea.data_alt().then_some(Ins::Tas(ea))
            },
            Some(sz) => { let ea = ea?; ea.data_alt().then_some(Ins::Tst(sz, ea)) },
        },
        0xC => {
            if op & 0x80 == 0 { return None; }
            let long = op & 0x40 != 0;
            let ea = ea?;
            (ea.control() || matches!(ea, Ea::Post(_))).then_some(Ins::Movem { to_mem: false, long, ea })
        },
        0xE => match (op >> 6) & 3 {
            0 => None,
            1 => match mode {
                0 | 1 => Some(Ins::Trap((op & 15) as u8)),
                2 => Some(Ins::Link(r0)),
                3 => Some(Ins::Unlk(r0)),
                4 => Some(Ins::Usp { to_usp: true, an: r0 }),
                5 => Some(Ins::Usp { to_usp: false, an: r0 }),
                6 => match r0 { 0 => Some(Ins::Reset), 1 => Some(Ins::Nop), 2 => Some(Ins::Stop), 3 => Some(Ins::Rte), 5 => Some(Ins::Rts), 6 => Some(Ins::Trapv), 7 => Some(Ins::Rtr), _ => None },
                _ => None,
            },
            2 => { let ea = ea?; ea.control().then_some(Ins::Jsr(ea)) },
            _ => { let ea = ea?; ea.control().then_some(Ins::Jmp(ea)) },
        },
        _ => None,
    }
}

/// Number of extension words of an effective address.
pub fn ea_words(ea: Ea, sz: Sz) -> u32 {
    match ea {
        Ea::Disp(_) | Ea::Idx(_) | Ea::AbsW | Ea::PcD | Ea::PcI => 1,
        Ea::AbsL => 2,
        Ea::Imm => if sz == Sz::L { 2 } else { 1 },
        _ => 0,
    }
}

/// Extension words following the opcode.
pub fn ext_words(i: &Ins) -> u32 {
    let immw = |sz: Sz| if sz == Sz::L { 2 } else { 1 };
    match *i {
        Ins::CcrImm(_) | Ins::SrImm(_) | Ins::Stop | Ins::Movep { .. } | Ins::Link(_) | Ins::Dbcc { .. } => 1,
        Ins::AluImm { sz, ea, .. } => immw(sz) + ea_words(ea, sz),
        Ins::BitDyn { ea, .. } => ea_words(ea, Sz::B),
        Ins::BitImm { ea, .. } => 1 + ea_words(ea, Sz::B),
        Ins::Move { sz, src, dst } => ea_words(src, sz) + ea_words(dst, sz),
        Ins::Movea { sz, src, .. } => ea_words(src, sz),
        Ins::FromSr(ea) | Ins::ToCcr(ea) | Ins::ToSr(ea) | Ins::Chk { ea, .. } | Ins::Mul { ea, .. } | Ins::Div { ea, .. } | Ins::ShMem { ea, .. } => ea_words(ea, Sz::W),
        Ins::Negx(sz, ea) | Ins::Clr(sz, ea) | Ins::Neg(sz, ea) | Ins::Not(sz, ea) | Ins::Tst(sz, ea) => ea_words(ea, sz),
        Ins::Nbcd(ea) | Ins::Tas(ea) | Ins::Scc { ea, .. } => ea_words(ea, Sz::B),
        Ins::Pea(ea) | Ins::Jsr(ea) | Ins::Jmp(ea) | Ins::Lea { ea, .. } => ea_words(ea, Sz::L),
        Ins::Movem { ea, .. } => 1 + ea_words(ea, Sz::W),
        Ins::Addq { sz, ea, .. } | Ins::Subq { sz, ea, .. } | Ins::Alu { sz, ea, .. } | Ins::AluA { sz, ea, .. } => ea_words(ea, sz),
        Ins::Bra(d) | Ins::Bsr(d) | Ins::Bcc { d, .. } => if d == 0 { 1 } else { 0 },
        _ => 0,
    }
}
