//! Reads disassembly text and compares it with what the instruction means. Layout (spaces, case, number base) does not matter.
use crate::isa68k::*;
use m68000::addressing_modes::AddressingMode as Am;
use m68000::instruction::{Operands, Size};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok { Id(String), P(char), N { v: i64, hex: bool } }

#[derive(Clone, Debug)]
pub enum Want { Id(String), P(char), /// signed number of that many bits
    S(i64, u32), /// bit pattern of that many bits
    U(i64, u32) }

pub fn tokens(s: &str) -> Option<Vec<Tok>> {
    let b: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() { i += 1; continue; }
        let neg = c == '-' && b.get(i + 1).map_or(false, |x| x.is_ascii_digit());
        if neg || c.is_ascii_digit() || c == '$' {
            if neg { i += 1; }
            let hex = b[i] == '$' || b[i] == '0' && matches!(b.get(i + 1), Some('x') | Some('X'));
            if hex { i += if b[i] == '$' { 1 } else { 2 }; }
            let st = i;
            while i < b.len() && b[i].is_ascii_hexdigit() && (hex || b[i].is_ascii_digit()) { i += 1; }
            let t: String = b[st..i].iter().collect();
            let n = i64::from_str_radix(&t, if hex { 16 } else { 10 }).ok()?;
            v.push(Tok::N { v: if neg { -n } else { n }, hex });
        } else if c.is_ascii_alphabetic() {
            let st = i;
            while i < b.len() && b[i].is_ascii_alphanumeric() { i += 1; }
            v.push(Tok::Id(b[st..i].iter().collect::<String>().to_ascii_uppercase()));
        } else { v.push(Tok::P(c)); i += 1; }
    }
    Some(v)
}

fn id(s: impl Into<String>) -> Want { Want::Id(s.into()) }
fn p(c: char) -> Want { Want::P(c) }
fn dn(r: u8) -> Vec<Want> { vec![id(format!("D{r}"))] }
fn an(r: u8) -> Vec<Want> { vec![id(format!("A{r}"))] }
fn mem(r: u8, pre: bool, post: bool) -> Vec<Want> {
    let mut v = vec![];
    if pre { v.push(p('-')); }
    v.extend([p('('), id(format!("A{r}")), p(')')]);
    if post { v.push(p('+')); }
    v
}
fn imm(v: i64, bits: u32) -> Vec<Want> { vec![p('#'), Want::U(v, bits)] }

fn bew(w: u16) -> Vec<Want> {
    let x = if w & 0x8000 != 0 { "A" } else { "D" };
    vec![id(format!("{x}{}", w >> 12 & 7)), p('.'), id(if w & 0x800 != 0 { "L" } else { "W" })]
}

/// Text of an operand (sz: size of the operation, for immediates).
pub fn ea(am: &Am, s: Sz) -> Vec<Want> {
    match *am {
        Am::Drd(r) => dn(r), Am::Ard(r) => an(r), Am::Ari(r) => mem(r, false, false), Am::Ariwpo(r) => mem(r, false, true), Am::Ariwpr(r) => mem(r, true, false),
        Am::Ariwd(r, d) => vec![p('('), Want::S(d as i64, 16), p(','), id(format!("A{r}")), p(')')],
        Am::Ariwi8(r, b) => { let mut v = vec![p('('), Want::S(b.0 as i8 as i64, 8), p(','), id(format!("A{r}")), p(',')]; v.extend(bew(b.0)); v.push(p(')')); v },
        Am::AbsShort(x) => vec![p('('), Want::U(x as i64, 16), p(')'), p('.'), id("W")],
        Am::AbsLong(x) => vec![p('('), Want::U(x as i64, 32), p(')'), p('.'), id("L")],
        Am::Pciwd(_, d) => vec![p('('), Want::S(d as i64, 16), p(','), id("PC"), p(')')],
        Am::Pciwi8(_, b) => { let mut v = vec![p('('), Want::S(b.0 as i8 as i64, 8), p(','), id("PC"), p(',')]; v.extend(bew(b.0)); v.push(p(')')); v },
        Am::Immediate(x) => imm(x as i64, s.bits()),
    }
}

pub const CC: [&str; 16] = ["T", "F", "HI", "LS", "CC", "CS", "NE", "EQ", "VC", "VS", "PL", "MI", "GE", "LT", "GT", "LE"];

pub struct Expect { pub mnem: Vec<String>, pub size: Option<Sz>, pub size_needed: bool, pub ops: Vec<Vec<Want>>, /// branch displacement and target
    pub branch: Option<(i64, u32)> }

/// What the text of an instruction must say, from the independent opcode map and operands.
pub fn expect(ins: &Ins, o: &Operands, ext: &[u16], pc: u32) -> Expect {
    let am1 = || -> Am { match *o {
        Operands::SizeEffectiveAddressImmediate(_, a, _) | Operands::EffectiveAddressCount(a, _) | Operands::EffectiveAddress(a) | Operands::SizeEffectiveAddress(_, a) | Operands::RegisterEffectiveAddress(_, a)
        | Operands::SizeRegisterEffectiveAddress(_, _, a) | Operands::SizeEffectiveAddressEffectiveAddress(_, _, a) | Operands::DirectionSizeEffectiveAddressList(_, _, a, _) | Operands::DataSizeEffectiveAddress(_, _, a)
        | Operands::ConditionEffectiveAddress(_, a) | Operands::RegisterDirectionSizeEffectiveAddress(_, _, _, a) | Operands::RegisterSizeEffectiveAddress(_, _, a) | Operands::DirectionEffectiveAddress(_, a) => a,
        _ => unreachable!(),
    } };
    let _ = Size::Byte;
    let e = |m: &str, size: Option<Sz>, need: bool, ops: Vec<Vec<Want>>| Expect { mnem: vec![m.to_string()], size, size_needed: need, ops, branch: None };
    let aluname = |k: Alu| match k { Alu::Or => "OR", Alu::And => "AND", Alu::Sub => "SUB", Alu::Add => "ADD", Alu::Eor => "EOR", Alu::Cmp => "CMP" };
    let bitname = |k: Bit| match k { Bit::Tst => "BTST", Bit::Chg => "BCHG", Bit::Clr => "BCLR", Bit::Set => "BSET" };
    let shname = |k: Sh, l: bool| format!("{}{}", match k { Sh::As => "AS", Sh::Ls => "LS", Sh::Rox => "ROX", Sh::Ro => "RO" }, if l { "L" } else { "R" });
    let ccs = |pre: &str, cc: u8| -> Vec<String> {
        let mut v = vec![format!("{pre}{}", CC[cc as usize])];
        if cc == 4 { v.push(format!("{pre}HS")); }
        if cc == 5 { v.push(format!("{pre}LO")); }
        v
    };
    let br = |mnem: Vec<String>, d: i16, ops: Vec<Vec<Want>>| Expect { mnem, size: None, size_needed: false, ops, branch: Some((d as i64, pc.wrapping_add(2).wrapping_add(d as u32))) };
    let long = |l: bool| if l { Sz::L } else { Sz::W };
    let bd = |d: i8| if d == 0 { ext[0] as i16 } else { d as i16 };
    match *ins {
        Ins::CcrImm(k) => e(&format!("{}I", aluname(k)), Some(Sz::B), false, vec![vec![p('#'), Want::U((ext[0] & 0xFF) as i64, 8)], vec![id("CCR")]]),
        Ins::SrImm(k) => e(&format!("{}I", aluname(k)), Some(Sz::W), false, vec![vec![p('#'), Want::U(ext[0] as i64, 16)], vec![id("SR")]]),
        Ins::AluImm { k, sz, .. } => {
            let v = if sz == Sz::L { (ext[0] as i64) << 16 | ext[1] as i64 } else { ext[0] as i64 };
            e(&format!("{}I", aluname(k)), Some(sz), true, vec![imm(v, sz.bits()), ea(&am1(), sz)])
        },
        Ins::BitDyn { k, dn: r, ea: m } => e(bitname(k), Some(if matches!(m, Ea::D(_)) { Sz::L } else { Sz::B }), false, vec![dn(r), ea(&am1(), Sz::B)]),
        Ins::BitImm { k, ea: m } => e(bitname(k), Some(if matches!(m, Ea::D(_)) { Sz::L } else { Sz::B }), false, vec![imm((ext[0] & 0xFF) as i64, 8), ea(&am1(), Sz::B)]),
        Ins::Movep { dn: d, an: a, long: l, to_mem } => {
            let m = vec![p('('), Want::S(ext[0] as i16 as i64, 16), p(','), id(format!("A{a}")), p(')')];
            e("MOVEP", Some(long(l)), true, if to_mem { vec![dn(d), m] } else { vec![m, dn(d)] })
        },
        Ins::Move { sz, .. } => { let Operands::SizeEffectiveAddressEffectiveAddress(_, d, s) = *o else { unreachable!() }; e("MOVE", Some(sz), true, vec![ea(&s, sz), ea(&d, sz)]) },
        Ins::Movea { sz, an: a, .. } => e("MOVEA", Some(sz), true, vec![ea(&am1(), sz), an(a)]),
        Ins::FromSr(_) => e("MOVE", Some(Sz::W), false, vec![vec![id("SR")], ea(&am1(), Sz::W)]),
        Ins::ToCcr(_) => e("MOVE", Some(Sz::W), false, vec![ea(&am1(), Sz::W), vec![id("CCR")]]),
        Ins::ToSr(_) => e("MOVE", Some(Sz::W), false, vec![ea(&am1(), Sz::W), vec![id("SR")]]),
        Ins::Negx(s, _) => e("NEGX", Some(s), true, vec![ea(&am1(), s)]), Ins::Clr(s, _) => e("CLR", Some(s), true, vec![ea(&am1(), s)]), Ins::Neg(s, _) => e("NEG", Some(s), true, vec![ea(&am1(), s)]),
        Ins::Not(s, _) => e("NOT", Some(s), true, vec![ea(&am1(), s)]), Ins::Tst(s, _) => e("TST", Some(s), true, vec![ea(&am1(), s)]),
        Ins::Nbcd(_) => e("NBCD", Some(Sz::B), false, vec![ea(&am1(), Sz::B)]), Ins::Tas(_) => e("TAS", Some(Sz::B), false, vec![ea(&am1(), Sz::B)]), Ins::Pea(_) => e("PEA", Some(Sz::L), false, vec![ea(&am1(), Sz::L)]),
        Ins::Swap(r) => e("SWAP", Some(Sz::W), false, vec![dn(r)]), Ins::Ext { long: l, dn: r } => e("EXT", Some(long(l)), true, vec![dn(r)]),
        Ins::Movem { to_mem, long: l, .. } => { let m = ea(&am1(), Sz::W); let li = vec![Want::U(ext[0] as i64, 16)]; e("MOVEM", Some(long(l)), true, if to_mem { vec![li, m] } else { vec![m, li] }) },
        Ins::Illegal => e("ILLEGAL", None, false, vec![]), Ins::Reset => e("RESET", None, false, vec![]), Ins::Nop => e("NOP", None, false, vec![]), Ins::Rte => e("RTE", None, false, vec![]), Ins::Rts => e("RTS", None, false, vec![]),
        Ins::Rtr => e("RTR", None, false, vec![]), Ins::Trapv => e("TRAPV", None, false, vec![]), Ins::Stop => e("STOP", None, false, vec![imm(ext[0] as i64, 16)]), Ins::Trap(v) => e("TRAP", None, false, vec![imm(v as i64, 8)]),
        Ins::Link(r) => e("LINK", Some(Sz::W), false, vec![an(r), vec![p('#'), Want::S(ext[0] as i16 as i64, 16)]]), Ins::Unlk(r) => e("UNLK", None, false, vec![an(r)]),
        Ins::Usp { to_usp, an: r } => e("MOVE", Some(Sz::L), false, if to_usp { vec![an(r), vec![id("USP")]] } else { vec![vec![id("USP")], an(r)] }),
        Ins::Jsr(_) => e("JSR", None, false, vec![ea(&am1(), Sz::L)]), Ins::Jmp(_) => e("JMP", None, false, vec![ea(&am1(), Sz::L)]),
        Ins::Chk { dn: r, .. } => e("CHK", Some(Sz::W), false, vec![ea(&am1(), Sz::W), dn(r)]), Ins::Lea { an: r, .. } => e("LEA", Some(Sz::L), false, vec![ea(&am1(), Sz::L), an(r)]),
        Ins::Addq { n, sz, .. } => e("ADDQ", Some(sz), true, vec![imm(n as i64, 8), ea(&am1(), sz)]), Ins::Subq { n, sz, .. } => e("SUBQ", Some(sz), true, vec![imm(n as i64, 8), ea(&am1(), sz)]),
        Ins::Scc { cc, .. } => Expect { mnem: ccs("S", cc), size: Some(Sz::B), size_needed: false, ops: vec![ea(&am1(), Sz::B)], branch: None },
        Ins::Dbcc { cc, dn: r } => { let mut m = ccs("DB", cc); if cc == 1 { m.push("DBRA".into()); } br(m, ext[0] as i16, vec![dn(r)]) },
        Ins::Bra(d) => br(vec!["BRA".into()], bd(d), vec![]), Ins::Bsr(d) => br(vec!["BSR".into()], bd(d), vec![]), Ins::Bcc { cc, d } => br(ccs("B", cc), bd(d), vec![]),
        Ins::Moveq { dn: r, v } => e("MOVEQ", Some(Sz::L), false, vec![vec![p('#'), Want::S(v as i64, 32)], dn(r)]),
        Ins::Alu { k, dn: r, sz, to_ea, .. } => { let m = ea(&am1(), sz); e(aluname(k), Some(sz), true, if to_ea { vec![dn(r), m] } else { vec![m, dn(r)] }) },
        Ins::Mul { signed, dn: r, .. } => e(if signed { "MULS" } else { "MULU" }, Some(Sz::W), false, vec![ea(&am1(), Sz::W), dn(r)]),
        Ins::Div { signed, dn: r, .. } => e(if signed { "DIVS" } else { "DIVU" }, Some(Sz::W), false, vec![ea(&am1(), Sz::W), dn(r)]),
        Ins::Abcd { rx, ry, mem: m } => e("ABCD", Some(Sz::B), false, xx(rx, ry, m)), Ins::Sbcd { rx, ry, mem: m } => e("SBCD", Some(Sz::B), false, xx(rx, ry, m)),
        Ins::Addx { rx, ry, sz, mem: m } => e("ADDX", Some(sz), true, xx(rx, ry, m)), Ins::Subx { rx, ry, sz, mem: m } => e("SUBX", Some(sz), true, xx(rx, ry, m)),
        Ins::AluA { k, an: r, sz, .. } => e(&format!("{}A", aluname(k)), Some(sz), true, vec![ea(&am1(), sz), an(r)]),
        Ins::Cmpm { ax, ay, sz } => e("CMPM", Some(sz), true, vec![mem(ay, false, true), mem(ax, false, true)]),
        Ins::Exg { k, rx, ry } => e("EXG", Some(Sz::L), false, match k { Exg::Data => vec![dn(rx), dn(ry)], Exg::Addr => vec![an(rx), an(ry)], Exg::DataAddr => vec![dn(rx), an(ry)] }),
        Ins::ShReg { k, left, sz, by_reg, cnt, dn: r } => e(&shname(k, left), Some(sz), true, vec![if by_reg { dn(cnt) } else { imm(if cnt == 0 { 8 } else { cnt as i64 }, 8) }, dn(r)]),
        Ins::ShMem { k, left, .. } => e(&shname(k, left), Some(Sz::W), false, vec![ea(&am1(), Sz::W)]),
    }
}
fn xx(rx: u8, ry: u8, m: bool) -> Vec<Vec<Want>> { if m { vec![mem(ry, true, false), mem(rx, true, false)] } else { vec![dn(ry), dn(rx)] } }

fn num_ok(w: &Want, v: i64, hex: bool) -> bool {
    match *w {
        Want::S(x, bits) => v == x || hex && v >= 0 && (v ^ x) & ((1i64 << bits.max(32)) - 1) == 0 || hex && v >= 0 && v < 1 << bits && (v ^ x) & ((1i64 << bits) - 1) == 0,
        Want::U(x, bits) => (v ^ x) & ((1i64 << bits) - 1) == 0,
        _ => false,
    }
}

/// Why the text does not say what it must.
pub fn check(text: &str, x: &Expect) -> Result<(), String> {
    let t = tokens(text).ok_or("unreadable number")?;
    let mut i = 0;
    match t.first() { Some(Tok::Id(m)) if x.mnem.contains(m) => i += 1, o => return Err(format!("mnemonic {o:?}, expected {:?}", x.mnem)) }
    if t.get(i) == Some(&Tok::P('.')) {
        let s = x.size.ok_or("size on an instruction without one")?;
        if t.get(i + 1) != Some(&Tok::Id(s.ch().to_string())) { return Err(format!("size {:?}, expected {}", t.get(i + 1), s.ch())); }
        i += 2;
    } else if x.size_needed { return Err(format!("no size, expected {}", x.size.unwrap().ch())); }
    let mut want: Vec<Want> = Vec::new();
    for (n, o) in x.ops.iter().enumerate() { if n > 0 { want.push(p(',')); } want.extend(o.iter().cloned()); }
    if let Some((d, target)) = x.branch {
        if !want.is_empty() { want.push(p(',')); }
        want.extend([Want::S(d, 16), p('<'), Want::U(target as i64, 32), p('>')]);
    }
    let mut k = 0;
    while k < want.len() {
        let w = &want[k];
        let ok = match (w, t.get(i)) {
            (Want::Id(a), Some(Tok::Id(b))) => a == b,
            (Want::P(a), Some(Tok::P(b))) => a == b,
            (w, Some(Tok::N { v, hex })) => num_ok(w, *v, *hex),
            // "#" before an immediate is optional for the logical operations on CCR and SR.
            _ => false,
        };
        if !ok {
            if matches!(w, Want::P('#')) && matches!(x.ops.last().map(|o| &o[..]), Some([Want::Id(r)]) if r == "CCR" || r == "SR") { k += 1; continue; }
            return Err(format!("{:?} instead of {w:?}", t.get(i)));
        }
        i += 1;
        k += 1;
    }
    if i != t.len() { return Err(format!("extra text {:?}", &t[i..])); }
    Ok(())
}
