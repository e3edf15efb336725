//! The public value types and helpers by themselves: registers, sizes, addressing modes, extension words, exceptions,
//! operand accessors, table lookups, the word iterator (C35) and the arithmetic and bit helpers (C40).
use crate::asmapi::*;
use crate::bus::*;
use crate::isa68k;
use crate::lockstep::*;
use crate::model::prio;
use crate::rng::*;
use crate::runner::*;
use crate::single::{op_name, opts};
use crate::text;
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::decoder::DECODER;
use m68000::disassembler::DLUT;
use m68000::exception::{Exception, Vector};
use m68000::instruction::{self as im, Direction, Instruction, Operands, Size};
use m68000::isa::{Isa, IsaEntry};
use m68000::memory_access::{MemoryAccess, MemoryIter};
use m68000::status_register::StatusRegister;
use m68000::utils::{bit, bits, CarryingOps, Integer, IsEven, SliceAs};
use m68000::{Registers, M68000};
use std::cmp::Ordering;
use std::num::Wrapping;
use std::ops::Range;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hash(v: &[u64]) -> u64 { v.iter().fold(0, |h, x| mix(h ^ x)) }
fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e)) }

macro_rules! must {
    ($ctx:expr, $it:expr, $sig:expr, $c:expr, $($a:tt)*) => { if !$c { $ctx.violation($it, $sig, format!($($a)*)); } };
}

fn registers(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let sr = StatusRegister::from(rng.u16());
        let mut r = Registers::with_sr(sr);
        let zero = r.d.iter().all(|x| x.0 == 0) && r.a.iter().all(|x| x.0 == 0) && r.usp.0 == 0 && r.ssp.0 == 0 && r.pc.0 == 0;
        must!(ctx, it, "with_sr", zero && r.sr == sr, "Registers::with_sr({:#06X}) is {r:?}", u16::from(sr));
        // The registers as one array: d0-d7, a0-a6, usp, ssp, pc.
        let mut m = [0u32; 18];
        for x in m.iter_mut() { *x = rng.operand(); }
        for i in 0..8 { r.d[i].0 = m[i]; }
        for i in 0..7 { r.a[i].0 = m[8 + i]; }
        (r.usp.0, r.ssp.0, r.pc.0) = (m[15], m[16], m[17]);
        let mut s = sr.s;
        for _ in 0..12 {
            let n = rng.below(8) as u8;
            let v = rng.operand();
            let sp = if s { 16 } else { 15 };
            let slot = if n == 7 { sp } else { 8 + n as usize };
            let k = rng.below(8);
            match k {
                0 => { r.d_byte(n, v as u8); m[n as usize] = m[n as usize] & !0xFF | v & 0xFF; },
                1 => { r.d_word(n, v as u16); m[n as usize] = m[n as usize] & !0xFFFF | v & 0xFFFF; },
                2 => { r.a_mut(n).0 = v; m[slot] = v; },
                3 => { *r.a_mut(n) += v; m[slot] = m[slot].wrapping_add(v); },
                4 => { r.sp_mut().0 = v; m[sp] = v; },
                5 => { *r.sp_mut() -= v; m[sp] = m[sp].wrapping_sub(v); },
                6 => { s = !s; r.sr.s = s; },
                _ => { let q = r; r = q; },
            }
            ctx.eval(hash(&[1, k, n as u64, s as u64]));
            let sp = if s { 16 } else { 15 };
            must!(ctx, it, "sp", r.sp() == m[sp], "sp() is {:#X} with S={s}, USP {:#X} SSP {:#X}", r.sp(), m[15], m[16]);
            for n in 0..8u8 {
                let want = if n == 7 { m[sp] } else { m[8 + n as usize] };
                must!(ctx, it, "a", r.a(n) == want, "a({n}) is {:#X}, expected {want:#X} (S={s})", r.a(n));
            }
            let ok = (0..8).all(|i| r.d[i].0 == m[i]) && (0..7).all(|i| r.a[i].0 == m[8 + i]) && (r.usp.0, r.ssp.0, r.pc.0) == (m[15], m[16], m[17]);
            must!(ctx, it, "registers", ok, "after operation {k} on register {n} with {v:#X} (S={s}) the registers are {r:X?}, expected {m:X?}");
            let want = StatusRegister { s, ..sr };
            must!(ctx, it, "register sr", r.sr == want, "operation {k} on register {n} changed SR to {:?}", r.sr);
            if !ok { return; }
        }
        ctx.count("register operations", 12);
    }
}

fn cores(ctx: &mut Ctx, _: u64, _: Range<u64>) {
    fn one<C: m68000::CpuDetails + Default>(ctx: &mut Ctx, name: &str) {
        for fresh in [true, false] {
            let mut c = if fresh { M68000::<C>::new_no_reset() } else { M68000::<C>::new() };
            let ok = u16::from(c.regs.sr) == 0x2700 && !c.stop && c.regs.d.iter().all(|x| x.0 == 0) && c.regs.a.iter().all(|x| x.0 == 0) && c.regs.usp.0 | c.regs.ssp.0 | c.regs.pc.0 == 0;
            must!(ctx, 0, "new", ok, "a new {name} core (reset pending: {}) is {:?} stop {}", !fresh, c.regs, c.stop);
            let mut b = Bus::new(7);
            for (a, v) in [(0u32, 0x1234_5678u32), (4, 0x0000_2000)] { b.poke32(a, v); }
            let r = quiet(|| c.cycle(&mut b, 1));
            let took = c.regs.ssp.0 == 0x1234_5678;
            must!(ctx, 0, "new pending", r.is_ok() && took != fresh, "the first step of a new {name} core (reset expected: {}) gave {r:?}, SSP {:#X}", !fresh, c.regs.ssp.0);
            ctx.eval(hash(&[2, fresh as u64, name.len() as u64]));
        }
    }
    one::<Mc68000>(ctx, "MC68000");
    one::<Scc68070>(ctx, "SCC68070");
    must!(ctx, 0, "sr default", u16::from(StatusRegister::default()) == 0x2700, "the default status register is {:#06X}", u16::from(StatusRegister::default()));
    must!(ctx, 0, "sr default", u16::from(Registers::default().sr) == 0x2700, "the status register of default registers is {:#06X}", u16::from(Registers::default().sr));
}

fn sizes(ctx: &mut Ctx, _: u64, _: Range<u64>) {
    const S: [Size; 3] = [Size::Byte, Size::Word, Size::Long];
    for d in 0..=0xFFFFu16 {
        let got = quiet(|| Size::from(d)).ok();
        must!(ctx, 0, "size from", got == S.get(d as usize).copied(), "Size::from({d}) gives {got:?}");
        let want = match d { 1 => Some(Size::Byte), 3 => Some(Size::Word), 2 => Some(Size::Long), _ => None };
        let got = quiet(|| Size::from_move(d)).ok();
        must!(ctx, 0, "size from_move", got == want, "Size::from_move({d}) gives {got:?}");
        ctx.eval(hash(&[3, d as u64]));
    }
    for (i, s) in S.into_iter().enumerate() {
        must!(ctx, 0, "size flags", [s.is_byte(), s.is_word(), s.is_long()] == [i == 0, i == 1, i == 2], "{s:?}: is_byte {} is_word {} is_long {}", s.is_byte(), s.is_word(), s.is_long());
        must!(ctx, 0, "size into", u16::from(s) == i as u16 && s.into_move() == [1, 3, 2][i] && s as u32 == [1, 2, 4][i], "{s:?} encodes as {} and for MOVE as {}", u16::from(s), s.into_move());
        let b = quiet(|| s.into_bit()).ok();
        must!(ctx, 0, "size into_bit", b == [None, Some(0), Some(1)][i], "{s:?}.into_bit() gives {b:?}");
        must!(ctx, 0, "size as_word_long", s.as_word_long() == S[i.max(1)], "{s:?}.as_word_long() gives {:?}", s.as_word_long());
        must!(ctx, 0, "size text", s.to_string() == ["B", "W", "L"][i], "{s:?} is written {s}");
    }
    must!(ctx, 0, "size from_bit", (Size::from_bit(false), Size::from_bit(true)) == (Size::Word, Size::Long), "Size::from_bit gives {:?} {:?}", Size::from_bit(false), Size::from_bit(true));
    for d in DIRS {
        let want = match d { Direction::Left => "L", Direction::Right => "R", _ => "" };
        must!(ctx, 0, "direction text", d.to_string() == want, "{d:?} is written {d}");
    }
    for (i, c) in CONDS.into_iter().enumerate() { must!(ctx, 0, "condition number", c as usize == i, "{c:?} has number {}", c as usize); }
}

fn says(want: &[text::Want], got: &str) -> bool {
    let Some(t) = text::tokens(got) else { return false };
    t.len() == want.len() && t.iter().zip(want).all(|(t, w)| match (t, w) {
        (text::Tok::Id(x), text::Want::Id(y)) => x == y,
        (text::Tok::P(x), text::Want::P(y)) => x == y,
        (text::Tok::N { v, .. }, text::Want::S(x, _)) => v == x,
        (text::Tok::N { v, .. }, text::Want::U(x, _)) => v == x,
        _ => false,
    })
}

fn modes(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let reg = if rng.chance(1, 12) { rng.pick(&[8u8, 9, 15, 16, 63, 128, 255]) } else { rng.below(8) as u8 };
        let am = gen_am(&mut rng, reg);
        let bad = reg > 7;
        let (mode, mreg, r) = match am {
            Am::Drd(r) => (0, r, Some(r)), Am::Ard(r) => (1, r, Some(r)), Am::Ari(r) => (2, r, Some(r)), Am::Ariwpo(r) => (3, r, Some(r)), Am::Ariwpr(r) => (4, r, Some(r)), Am::Ariwd(r, _) => (5, r, Some(r)), Am::Ariwi8(r, _) => (6, r, Some(r)),
            Am::AbsShort(_) => (7, 0, None), Am::AbsLong(_) => (7, 1, None), Am::Pciwd(..) => (7, 2, None), Am::Pciwi8(..) => (7, 3, None), Am::Immediate(_) => (7, 4, None),
        };
        ctx.eval(hash(&[4, mode as u64, mreg as u64]));
        must!(ctx, it, "am register", am.register() == r, "{am:?}.register() gives {:?}", am.register());
        let kind = [am.is_drd(), am.is_ard(), am.is_dard(), am.is_ariwpo(), am.is_ariwpr(), am.is_immediate()];
        must!(ctx, it, "am kind", kind == [mode == 0, mode == 1, mode < 2, mode == 3, mode == 4, mode == 7 && mreg == 4], "{am:?}: is_drd, is_ard, is_dard, is_ariwpo, is_ariwpr, is_immediate give {kind:?}");
        // Which modes are allowed.
        for _ in 0..6 {
            let modes: Vec<u8> = (0..8).filter(|_| rng.bool()).collect();
            let regs: Vec<u8> = (0..5).filter(|_| rng.bool()).collect();
            let want = modes.contains(&mode) && if mode == 7 { regs.contains(&mreg) } else { !bad };
            must!(ctx, it, "am verify", am.verify(&modes, &regs) == want, "{am:?}.verify({modes:?}, {regs:?}) gives {}", !want);
            ctx.count(if want { "allowed modes" } else { "refused modes" }, 1);
        }
        // How it is encoded.
        if !bad {
            for long in [false, true] {
                let want: Vec<u16> = match am {
                    Am::Ariwd(_, d) | Am::Pciwd(_, d) => vec![d as u16], Am::Ariwi8(_, b) | Am::Pciwi8(_, b) => vec![b.0], Am::AbsShort(x) => vec![x], Am::AbsLong(x) => vec![(x >> 16) as u16, x as u16],
                    Am::Immediate(x) => if long { vec![(x >> 16) as u16, x as u16] } else { vec![x as u16] }, _ => vec![],
                };
                let (f, w) = am.assemble(long);
                must!(ctx, it, "am assemble", f == (mode as u16) << 3 | mreg as u16 && w[..] == want[..], "{am:?}.assemble({long}) gives {f:#X} {w:X?}");
                // Decoding those words gives the mode back, with the address of the extension word as PC value.
                let mut b = Bus::new(rng.u64());
                let at = rng.u32() & !1;
                for (i, x) in w.iter().enumerate() { b.poke16(at.wrapping_add(2 * i as u32), *x); }
                let size = if long { Size::Long } else { rng.pick(&[Size::Byte, Size::Word]) };
                let size = if matches!(am, Am::Immediate(_)) || rng.bool() { Some(size) } else { None };
                let mut i = MemoryIter { memory: &mut b, next_addr: at };
                let back = quiet(|| Am::from_memory(f >> 3, (f & 7) as u8, size, &mut i));
                let next = i.next_addr;
                let same = match (am, &back) {
                    (Am::Pciwd(_, d), Ok(x)) => *x == Am::Pciwd(at, d), (Am::Pciwi8(_, d), Ok(x)) => *x == Am::Pciwi8(at, d),
                    (Am::Immediate(v), Ok(x)) => *x == Am::Immediate(if long { v } else { v & 0xFFFF }),
                    (x, Ok(y)) => x == *y, _ => false,
                };
                must!(ctx, it, "am decode", same && next == at.wrapping_add(2 * want.len() as u32), "{am:?} assembled as {f:#X} {w:X?} is decoded at {at:#X} with size {size:?} as {back:?}, next address {next:#X}");
            }
            let d = quiet(|| am.assemble_move_dst());
            let can = mode < 7 || mreg < 2;
            let ok = match &d { Ok((f, w)) => can && *f == (mreg as u16) << 9 | (mode as u16) << 6 && w[..] == am.assemble(false).1[..], Err(_) => !can };
            must!(ctx, it, "am assemble_move_dst", ok, "{am:?}.assemble_move_dst() gives {d:X?}");
            // How it is written.
            let want = text::ea(&am, isa68k::Sz::L);
            for (k, s) in [format!("{am}"), format!("{am:x}"), format!("{am:X}")].into_iter().enumerate() {
                must!(ctx, it, "am text", says(&want, &s), "{am:?} is written {s}");
                if let Am::Immediate(v) = am {
                    let want = [format!("#{v}"), format!("#{v:#x}"), format!("#{v:#X}")][k].clone();
                    must!(ctx, it, "am immediate text", s.replace(' ', "") == want, "{am:?} is written {s} with format {k}, not {want}");
                }
            }
        }
    }
}

fn words(ctx: &mut Ctx, _: u64, _: Range<u64>) {
    for reg in 0..=255u8 {
        for k in 0..4 {
            let (a, l) = (k & 1 != 0, k & 2 != 0);
            for d in -128..=127i8 {
                let w = quiet(|| Bew::new(a, reg, l, d));
                let want = if reg > 7 { None } else { Some((a as u16) << 15 | (reg as u16) << 12 | (l as u16) << 11 | d as u8 as u16) };
                if !(w.as_ref().ok().map(|x| x.0) == want) { ctx.violation(0, "bew new", format!("BriefExtensionWord::new({a}, {reg}, {l}, {d}) gives {w:X?}")); }
                if reg > 8 && reg != 255 { break; }
            }
            ctx.eval(hash(&[5, reg as u64, k]));
        }
    }
    for w in 0..=0xFFFFu16 {
        let b = Bew(w);
        must!(ctx, 0, "bew disp", b.disp() == w as u8 as i8, "the displacement of {w:#06X} is {}", b.disp());
        let t = format!("{}{}.{}", if w >> 15 == 1 { 'A' } else { 'D' }, w >> 12 & 7, if w >> 11 & 1 == 1 { 'L' } else { 'W' });
        must!(ctx, 0, "bew text", b.to_string() == t, "{w:#06X} is written {b}, not {t}");
        let back = Bew::new(w >> 15 == 1, (w >> 12 & 7) as u8, w >> 11 & 1 == 1, b.disp());
        must!(ctx, 0, "bew round trip", back.0 == w & !0x0700, "{w:#06X} comes back as {:#06X}", back.0);
    }
    ctx.count("extension words", 65536);
}

fn exceptions(ctx: &mut Ctx, _: u64, _: Range<u64>) {
    use Vector::*;
    let named: [(Vector, u8); 46] = [(ResetSspPc, 0), (AccessError, 2), (AddressError, 3), (IllegalInstruction, 4), (ZeroDivide, 5), (ChkInstruction, 6), (TrapVInstruction, 7), (PrivilegeViolation, 8), (Trace, 9), (LineAEmulator, 10),
        (LineFEmulator, 11), (FormatError, 14), (UninitializedInterrupt, 15), (SpuriousInterrupt, 24), (Level1Interrupt, 25), (Level2Interrupt, 26), (Level3Interrupt, 27), (Level4Interrupt, 28), (Level5Interrupt, 29), (Level6Interrupt, 30),
        (Level7Interrupt, 31), (Trap0Instruction, 32), (Trap1Instruction, 33), (Trap2Instruction, 34), (Trap3Instruction, 35), (Trap4Instruction, 36), (Trap5Instruction, 37), (Trap6Instruction, 38), (Trap7Instruction, 39), (Trap8Instruction, 40),
        (Trap9Instruction, 41), (Trap10Instruction, 42), (Trap11Instruction, 43), (Trap12Instruction, 44), (Trap13Instruction, 45), (Trap14Instruction, 46), (Trap15Instruction, 47), (Level1OnChipInterrupt, 57), (Level2OnChipInterrupt, 58),
        (Level3OnChipInterrupt, 59), (Level4OnChipInterrupt, 60), (Level5OnChipInterrupt, 61), (Level6OnChipInterrupt, 62), (Level7OnChipInterrupt, 63), (UserInterrupt, 64), (UserInterrupt, 64)];
    for (v, n) in named {
        must!(ctx, 0, "vector number", v as u8 == n, "{v:?} has number {}", v as u8);
        must!(ctx, 0, "exception from vector", Exception::from(v) == Exception::from(n), "Exception::from({v:?}) is not Exception::from({n})");
    }
    must!(ctx, 0, "vector constants", m68000::exception::ACCESS_ERROR == 2 && m68000::exception::ADDRESS_ERROR == 3, "ACCESS_ERROR {} ADDRESS_ERROR {}", m68000::exception::ACCESS_ERROR, m68000::exception::ADDRESS_ERROR);
    let ex: Vec<Exception> = (0..=255u8).map(Exception::from).collect();
    for x in 0..256usize {
        must!(ctx, 0, "exception vector", ex[x].vector == x as u8, "Exception::from({x}) has vector {}", ex[x].vector);
        let int = matches!(x, 25..=31 | 57..=63);
        must!(ctx, 0, "exception is_interrupt", ex[x].is_interrupt() == int, "Exception::from({x}).is_interrupt() gives {}", !int);
        for y in 0..256usize {
            let c = ex[x].cmp(&ex[y]);
            ctx.eval(hash(&[6, x as u64, y as u64]));
            must!(ctx, 0, "exception equality", (c == Ordering::Equal) == (x == y) && (ex[x] == ex[y]) == (x == y), "exceptions {x} and {y} compare as {c:?} and == gives {}", ex[x] == ex[y]);
            must!(ctx, 0, "exception order", ex[y].cmp(&ex[x]) == c.reverse() && ex[x].partial_cmp(&ex[y]) == Some(c), "exceptions {x} and {y}: cmp {c:?}, reverse {:?}, partial {:?}", ex[y].cmp(&ex[x]), ex[x].partial_cmp(&ex[y]));
            // The order is the priority order wherever the manual gives one: the last is the most urgent, apart from
            // the reset, which is processed first and drops the others.
            let (px, py) = (prio(x as u8), prio(y as u8));
            if x != 0 && y != 0 && px != py { must!(ctx, 0, "exception priority", c == px.cmp(&py), "exceptions {x} and {y} compare as {c:?}"); }
        }
    }
    // A total order: sorting gives a chain in which every pair is ordered.
    let mut s = ex.clone();
    s.sort();
    for i in 0..256 { for j in i + 1..256 { must!(ctx, 0, "exception chain", s[i] < s[j], "in sorted order {} comes before {} but compares as {:?}", s[i].vector, s[j].vector, s[i].cmp(&s[j])); } }
    ctx.count("exception pairs", 65536);
}

/// Every variant, with its own fields as text, beside what each accessor gives.
fn accessors(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let r = rng.u8(); let q = rng.u8(); let w = rng.u16(); let l = rng.u32(); let i = rng.u16() as i16; let b = rng.u8() as i8;
        let s = rng.pick(&SIZES); let d = rng.pick(&DIRS); let f = rng.bool();
        let n = rng.below(8) as u8;
        let (e, g) = (gen_am(&mut rng, n), gen_am(&mut rng, n));
        use Operands::*;
        let all: [(Operands, String); 30] = [
            (NoOperands, String::new()), (Immediate(w), format!("{w:?}")), (SizeEffectiveAddressImmediate(s, e, l), format!("{:?}", (s, e, l))), (EffectiveAddressCount(e, r), format!("{:?}", (e, r))), (EffectiveAddress(e), format!("{e:?}")),
            (SizeEffectiveAddress(s, e), format!("{:?}", (s, e))), (RegisterEffectiveAddress(r, e), format!("{:?}", (r, e))), (RegisterDirectionSizeRegisterDisplacement(r, d, s, q, i), format!("{:?}", (r, d, s, q, i))),
            (SizeRegisterEffectiveAddress(s, r, e), format!("{:?}", (s, r, e))), (SizeEffectiveAddressEffectiveAddress(s, e, g), format!("{:?}", (s, e, g))), (RegisterOpmodeRegister(r, d, q), format!("{:?}", (r, d, q))), (OpmodeRegister(r, q), format!("{:?}", (r, q))),
            (Operands::Vector(r), format!("{r:?}")), (RegisterDisplacement(r, i), format!("{:?}", (r, i))), (Register(r), format!("{r:?}")), (DirectionRegister(d, r), format!("{:?}", (d, r))), (DirectionSizeEffectiveAddressList(d, s, e, w), format!("{:?}", (d, s, e, w))),
            (DataSizeEffectiveAddress(r, s, e), format!("{:?}", (r, s, e))), (ConditionEffectiveAddress(r, e), format!("{:?}", (r, e))), (ConditionRegisterDisplacement(r, q, i), format!("{:?}", (r, q, i))), (Displacement(i), format!("{i:?}")),
            (ConditionDisplacement(r, i), format!("{:?}", (r, i))), (RegisterData(r, b), format!("{:?}", (r, b))), (RegisterDirectionSizeEffectiveAddress(r, d, s, e), format!("{:?}", (r, d, s, e))), (RegisterSizeEffectiveAddress(r, s, e), format!("{:?}", (r, s, e))),
            (RegisterSizeModeRegister(r, s, d, q), format!("{:?}", (r, s, d, q))), (RegisterSizeRegister(r, s, q), format!("{:?}", (r, s, q))), (DirectionEffectiveAddress(d, e), format!("{:?}", (d, e))),
            (RotationDirectionSizeModeRegister(r, d, s, f, q), format!("{:?}", (r, d, s, f, q))), (NoOperands, String::new()),
        ];
        macro_rules! acc { ($($m:ident)*) => { [$((stringify!($m), (|o: Operands| quiet(|| format!("{:?}", o.$m())).ok()) as fn(Operands) -> Option<String>)),*] } }
        let a = acc!(immediate size_effective_address_immediate effective_address_count effective_address size_effective_address register_effective_address register_direction_size_register_displacement size_register_effective_address
            size_effective_address_effective_address register_opmode_register opmode_register vector register_displacement register direction_register direction_size_effective_address_list data_size_effective_address condition_effective_address
            condition_register_displacement displacement condition_displacement register_data register_direction_size_effective_address register_size_effective_address register_size_mode_register register_size_register direction_effective_address
            rotation_direction_size_mode_register);
        for (x, (o, t)) in all.iter().enumerate() {
            // The wrong accessor refuses; only one of the others is tried each time.
            let other = rng.below(a.len() as u64) as usize;
            for (y, (name, f)) in a.iter().enumerate() {
                if y + 1 != x && y != other { continue; }
                let got = f(*o);
                let want = if y + 1 == x { Some(t.clone()) } else { None };
                ctx.eval(hash(&[7, x as u64, y as u64]));
                must!(ctx, it, "operands accessor", got == want, "{o:?}.{name}() gives {got:?}");
            }
        }
        ctx.count("accessor calls", 60);
    }
}

/// The tables and the decoding functions, of every opcode, with random extension words.
fn tables(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let op = (unit * 8192 + (it.wrapping_mul(4099) & 8191)) as u16;
        let isa = Isa::from(op);
        ctx.eval(hash(&[8, op as u64]));
        must!(ctx, it, "isa from", isa == DECODER[op as usize] && format!("{isa:?}").eq_ignore_ascii_case(op_name(op)), "Isa::from({op:#06X}) is {isa:?}, the table says {:?}, the map {}", DECODER[op as usize], op_name(op));
        let ins = isa68k::decode(op);
        let p = ins.map_or(false, |i| i.privileged());
        must!(ctx, it, "isa privileged", isa.is_privileged() == p, "{isa:?}.is_privileged() gives {}", !p);
        let at = match rng.below(3) { 0 => 0xFFFF_FFF0 + (rng.u32() & 14), _ => rng.u32() & !1 };
        let ext: Vec<u16> = (0..5).map(|_| gen_ext(&mut rng)).collect();
        let mut b = Bus::new(rng.u64());
        b.poke16(at, op);
        for (i, w) in ext.iter().enumerate() { b.poke16(at.wrapping_add(2 + 2 * i as u32), *w); }
        let n = ins.map_or(0, |i| isa68k::ext_words(&i));
        let next = at.wrapping_add(2 + 2 * n);
        let want = ins.and_then(|_| operands(op, &ext, at));
        let after = at.wrapping_add(2);
        // Four ways to decode: the whole instruction, the opcode already read, the entry of the table.
        let mut i = b.iter_u16(at);
        let whole = quiet(|| Instruction::from_memory(&mut i));
        let n1 = i.next_addr;
        let mut i = b.iter_u16(after);
        let part = quiet(|| Instruction::from_opcode(op, at, &mut i));
        let n2 = i.next_addr;
        let mut i = b.iter_u16(after);
        let entry = quiet(|| (IsaEntry::<Bus>::ISA_ENTRY[isa as usize].decode)(op, &mut i));
        let n3 = i.next_addr;
        let ok = matches!((&whole, &part, &entry), (Ok(Ok(x)), Ok(y), Ok(z)) if x == y && x.operands == *z && x.opcode == op && x.pc == at) && n1 == next && n2 == next && n3 == next;
        must!(ctx, it, "decode ways", ok, "at {at:#X}, {op:04X} {ext:04X?}: from_memory {whole:?} next {n1:#X}; from_opcode {part:?} next {n2:#X}; table entry {entry:?} next {n3:#X}; expected next {next:#X}");
        let (Ok(part), Ok(entry)) = (part, entry) else { continue };
        if let Some(w) = want { must!(ctx, it, "decode operands", same_operands(&w, &entry), "{op:04X} {ext:04X?} at {at:#X} decodes to {entry:?}, expected {w:?}"); }
        // The functions by themselves give the fields of the operands.
        let mut i = b.iter_u16(after);
        use Operands::*;
        let free = quiet(|| match entry {
            NoOperands => Operands::new_no_operands(op, &mut i), Immediate(_) => Immediate(im::immediate(&mut i)),
            SizeEffectiveAddressImmediate(..) => { let (a, b, c) = im::size_effective_address_immediate(op, &mut i); SizeEffectiveAddressImmediate(a, b, c) },
            EffectiveAddressCount(..) => { let (a, b) = im::effective_address_count(op, &mut i); EffectiveAddressCount(a, b) },
            EffectiveAddress(_) => EffectiveAddress(im::effective_address(op, &mut i)),
            SizeEffectiveAddress(..) => { let (a, b) = im::size_effective_address(op, &mut i); SizeEffectiveAddress(a, b) },
            RegisterEffectiveAddress(..) => { let (a, b) = im::register_effective_address(op, &mut i); RegisterEffectiveAddress(a, b) },
            RegisterDirectionSizeRegisterDisplacement(..) => { let (a, b, c, d, e) = im::register_direction_size_register_displacement(op, &mut i); RegisterDirectionSizeRegisterDisplacement(a, b, c, d, e) },
            SizeRegisterEffectiveAddress(..) => { let (a, b, c) = im::size_register_effective_address(op, &mut i); SizeRegisterEffectiveAddress(a, b, c) },
            SizeEffectiveAddressEffectiveAddress(..) => { let (a, b, c) = im::size_effective_address_effective_address(op, &mut i); SizeEffectiveAddressEffectiveAddress(a, b, c) },
            RegisterOpmodeRegister(..) => { let (a, b, c) = im::register_opmode_register(op); RegisterOpmodeRegister(a, b, c) },
            OpmodeRegister(..) => { let (a, b) = im::opmode_register(op); OpmodeRegister(a, b) },
            Operands::Vector(_) => Operands::Vector(im::vector(op)),
            RegisterDisplacement(..) => { let (a, b) = im::register_displacement(op, &mut i); RegisterDisplacement(a, b) },
            Register(_) => Register(im::register(op)),
            DirectionRegister(..) => { let (a, b) = im::direction_register(op); DirectionRegister(a, b) },
            DirectionSizeEffectiveAddressList(..) => { let (a, b, c, d) = im::direction_size_effective_address_list(op, &mut i); DirectionSizeEffectiveAddressList(a, b, c, d) },
            DataSizeEffectiveAddress(..) => { let (a, b, c) = im::data_size_effective_address(op, &mut i); DataSizeEffectiveAddress(a, b, c) },
            ConditionEffectiveAddress(..) => { let (a, b) = im::condition_effective_address(op, &mut i); ConditionEffectiveAddress(a, b) },
            ConditionRegisterDisplacement(..) => { let (a, b, c) = im::condition_register_displacement(op, &mut i); ConditionRegisterDisplacement(a, b, c) },
            Displacement(_) => Displacement(im::displacement(op, &mut i)),
            ConditionDisplacement(..) => { let (a, b) = im::condition_displacement(op, &mut i); ConditionDisplacement(a, b) },
            RegisterData(..) => { let (a, b) = im::register_data(op); RegisterData(a, b) },
            RegisterDirectionSizeEffectiveAddress(..) => { let (a, b, c, d) = im::register_direction_size_effective_address(op, &mut i); RegisterDirectionSizeEffectiveAddress(a, b, c, d) },
            RegisterSizeEffectiveAddress(..) => { let (a, b, c) = im::register_size_effective_address(op, &mut i); RegisterSizeEffectiveAddress(a, b, c) },
            RegisterSizeModeRegister(..) => { let (a, b, c, d) = im::register_size_mode_register(op); RegisterSizeModeRegister(a, b, c, d) },
            RegisterSizeRegister(..) => { let (a, b, c) = im::register_size_register(op); RegisterSizeRegister(a, b, c) },
            DirectionEffectiveAddress(..) => { let (a, b) = im::direction_effective_address(op, &mut i); DirectionEffectiveAddress(a, b) },
            RotationDirectionSizeModeRegister(..) => { let (a, b, c, d, e) = im::rotation_direction_size_mode_register(op); RotationDirectionSizeModeRegister(a, b, c, d, e) },
        });
        let n4 = i.next_addr;
        must!(ctx, it, "decode functions", free.as_ref().ok() == Some(&entry) && n4 == next, "{op:04X} {ext:04X?} at {at:#X} decodes to {entry:?}; the function by itself gives {free:?}, next {n4:#X}");
        // Three ways to write it.
        let (x, y, z) = (part.disassemble(), part.to_string(), DLUT[isa as usize](&part));
        must!(ctx, it, "text ways", x == y && y == z, "{op:04X} {ext:04X?} at {at:#X}: disassemble() {x:?}, Display {y:?}, table {z:?}");
        ctx.count("decoded words", 1);
    }
}

/// A memory with only the methods the trait demands: long accesses and iteration are the trait's own.
struct Plain<'a>(&'a mut Bus);
impl MemoryAccess for Plain<'_> {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.0.r8(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.0.r16(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.0.w8(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.0.w16(a, v) }
    fn reset_instruction(&mut self) {}
}

/// The long accesses the trait provides: the high word at the address, then, unless it is refused, the low word after it.
fn longs(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut b = Bus::new(rng.u64());
        let a = match rng.below(4) { 0 => 0xFFFF_FFF8 + (rng.u32() & 7), 1 => rng.u32() & 7, 2 => rng.u32() | 0xFFFE, _ => rng.u32() } & !1;
        let h = a.wrapping_add(rng.u32() & 7).wrapping_sub(2);
        let hole = rng.bool();
        if hole { b.holes.push((h, h.saturating_add(rng.u32() & 1), rng.bool(), rng.bool())); }
        b.logging = true;
        let (write, v) = (rng.bool(), rng.operand());
        let (lo, r1, r2) = (a.wrapping_add(2), b.refused(a, 2, write), b.refused(a.wrapping_add(2), 2, write));
        let (was, was_lo) = (b.peek16(a), b.peek16(lo));
        let mut m = Plain(&mut b);
        let got = quiet(|| if write { m.set_long(a, v).map(|_| 0) } else { m.get_long(a) });
        let want = if r1 || r2 { None } else if write { Some(0) } else { Some((was as u32) << 16 | was_lo as u32) };
        let done = if r1 { vec![(a, false)] } else { vec![(a, true), (lo, !r2)] };
        let log: Vec<(u32, bool)> = b.log.iter().filter(|e| e.write == write && e.size == 2).map(|e| (e.addr, e.ok)).collect();
        let mem = (b.peek16(a), b.peek16(lo)) == (if write && !r1 { (v >> 16) as u16 } else { was }, if write && !r1 && !r2 { v as u16 } else { was_lo });
        ctx.eval(hash(&[13, write as u64, r1 as u64, r2 as u64, (a > 0xFFFF_FFF0) as u64 * 2 + (a < 16) as u64]));
        must!(ctx, it, "trait long access", got.as_ref().ok() == Some(&want) && log == done && b.log.len() == log.len() && mem, "{} of a long at {a:#X} (refused words: {r1} {r2}) gives {got:X?}, expected {want:X?}, with the accesses {:X?}", if write { "a write" } else { "a read" }, b.log);
        ctx.count("long accesses of the trait", 1);
    }
}

/// The word iterator against the memory it reads.
fn iterator(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut b = Bus::new(rng.u64());
        let start = match rng.below(4) { 0 => 0xFFFF_FFF0 + (rng.u32() & 15), 1 => rng.u32() & 15, _ => rng.u32() };
        let hole = start.wrapping_add(rng.u32() & 15);
        if rng.bool() { let end = hole.saturating_add(rng.u32() & 7); b.holes.push((hole, end, true, true)); }
        b.logging = true;
        let mut next = start;
        let n = rng.range(1, 12);
        for k in 0..n {
            let before = b.log.len();
            let mut i = b.iter_u16(next);
            let got = quiet(|| i.next());
            let after = i.next_addr;
            let evs: Vec<Ev> = b.log[before..].to_vec();
            let odd = next & 1 != 0;
            let refused = !odd && b.refused(next, 2, false);
            let want = if odd { Err(3) } else if refused { Err(2) } else { Ok(b.peek16(next)) };
            ctx.eval(hash(&[9, odd as u64, refused as u64, k, (next > 0xFFFF_FFF0) as u64]));
            must!(ctx, it, "iterator value", got.as_ref().ok() == Some(&Some(want)), "the iterator at {next:#X} gives {got:X?}, memory says {want:X?}");
            must!(ctx, it, "iterator access", evs.iter().all(|e| !e.write && e.addr == next && e.size == 2) && evs.len() == !odd as usize, "the iterator at {next:#X} accesses {evs:X?}");
            // After a word it stands on the next one; an odd address is not left.
            let ok = if odd { after == next } else if refused { true } else { after == next.wrapping_add(2) };
            must!(ctx, it, "iterator address", ok, "the iterator goes from {next:#X} to {after:#X}");
            next = after;
            if rng.chance(1, 8) { next = next.wrapping_add(rng.u32() & 7); }
        }
        ctx.count("iterator steps", n);
        // Slices read by the iterator: what a decoder of a file sees.
        let v: Vec<u8> = (0..rng.range(0, 24)).map(|_| rng.u8()).collect();
        let mut s: &[u8] = &v;
        let from = (rng.u32() & 15) & !1;
        let got: Vec<u16> = s.iter_u16(from).map_while(|x| x.ok()).take(40).collect();
        let want: Vec<u16> = v.get(from as usize..).unwrap_or(&[]).chunks_exact(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
        must!(ctx, it, "iterator slice", got == want, "the words of {v:X?} from {from} are {got:X?}");
    }
}

fn carrying<T, S, U>(ctx: &mut Ctx, it: u64, a: T, b: T, c: bool, bits: u32, val: impl Fn(T) -> i128, sv: impl Fn(S) -> i128, uv: impl Fn(U) -> i128, name: &str)
where T: CarryingOps<S, U> + Copy + std::fmt::Debug {
    let m = (1i128 << bits) - 1;
    let (x, y, k) = (val(a), val(b), c as i128);
    let signed = |v: i128| { let v = v & m; if v >> (bits - 1) != 0 { v - (m + 1) } else { v } };
    let is_signed = name.starts_with('i');
    let own = |v: i128| if is_signed { signed(v) } else { v & m };
    let fits = |v: i128, s: bool| if s { v == signed(v) } else { v == v & m };
    let (xs, ys, xu, yu) = (signed(x), signed(y), x & m, y & m);
    let (r, f) = a.carryingadd(b, c);
    let (r2, f2) = a.borrowingsub(b, c);
    let (s, sf) = a.signed_carrying_add(b, c);
    let (u, uf) = a.unsigned_carrying_add(b, c);
    let (s2, sf2) = a.signed_borrowing_sub(b, c);
    let (u2, uf2) = a.unsigned_borrowing_sub(b, c);
    for (what, got, flag, exact, res, sg) in [
        ("carryingadd", val(r), f, x + y + k, own(x + y + k), is_signed), ("borrowingsub", val(r2), f2, x - y - k, own(x - y - k), is_signed),
        ("signed_carrying_add", sv(s), sf, xs + ys + k, signed(xs + ys + k), true), ("unsigned_carrying_add", uv(u), uf, xu + yu + k, (xu + yu + k) & m, false),
        ("signed_borrowing_sub", sv(s2), sf2, xs - ys - k, signed(xs - ys - k), true), ("unsigned_borrowing_sub", uv(u2), uf2, xu - yu - k, (xu - yu - k) & m, false)] {
        if got != res || flag == fits(exact, sg) { ctx.violation(it, what, format!("{name}: {a:?}.{what}({b:?}, {c}) gives ({got}, {flag}), the exact result is {exact}")); }
    }
}

fn small(ctx: &mut Ctx, unit: u64, _: Range<u64>) {
    // All operand pairs of 8 bits, one block of left operands per unit.
    for a in (unit * 32)..(unit * 32 + 32) {
        ctx.beat(0);
        for b in 0..256u64 {
            for c in [false, true] {
                carrying::<i8, i8, u8>(ctx, 0, a as u8 as i8, b as u8 as i8, c, 8, |x| x as i128, |x| x as i128, |x| x as i128, "i8");
                carrying::<u8, i8, u8>(ctx, 0, a as u8, b as u8, c, 8, |x| x as i128, |x| x as i128, |x| x as i128, "u8");
                ctx.eval(hash(&[10, a, b, c as u64]));
            }
        }
        ctx.count("8-bit additions and subtractions", 256 * 2 * 12);
    }
}

fn wide(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let a = rng.operand();
        let b = match rng.below(6) { 0 => !a, 1 => a, 2 => a.wrapping_neg(), 3 => 0x8000_8000u32.wrapping_sub(a), _ => rng.operand() }.wrapping_add(rng.pick(&[0, 0, 1, u32::MAX]));
        let c = rng.bool();
        carrying::<i16, i16, u16>(ctx, it, a as i16, b as i16, c, 16, |x| x as i128, |x| x as i128, |x| x as i128, "i16");
        carrying::<u16, i16, u16>(ctx, it, a as u16, b as u16, c, 16, |x| x as i128, |x| x as i128, |x| x as i128, "u16");
        carrying::<i32, i32, u32>(ctx, it, a as i32, b as i32, c, 32, |x| x as i128, |x| x as i128, |x| x as i128, "i32");
        carrying::<u32, i32, u32>(ctx, it, a, b, c, 32, |x| x as i128, |x| x as i128, |x| x as i128, "u32");
        ctx.eval(hash(&[11, a as u64, b as u64, c as u64]));
        ctx.count("wide additions and subtractions", 24);
        // Parity.
        let e = a % 2 == 0;
        let want = if e { Ok(a) } else { Err(3u8) };
        let z = a as usize | (b as usize) << 32;
        let ok = a.is_even() == e && a.even() == want && Wrapping(a).is_even() == e && Wrapping(a).even() == want.map(Wrapping) && IsEven::is_even(z) == e && z.even() == if e { Ok(z) } else { Err(3) };
        must!(ctx, it, "even", ok, "{a:#X}: is_even {} even {:?}; Wrapping {} {:?}; usize {} {:?}", a.is_even(), a.even(), Wrapping(a).is_even(), Wrapping(a).even(), IsEven::is_even(z), z.even());
        // Word slices.
        let v: Vec<u16> = (0..rng.range(2, 6)).map(|_| rng.operand() as u16).collect();
        let s: &[u16] = &v;
        let long = (v[0] as u32) * 65536 + v[1] as u32;
        must!(ctx, it, "u32_be", s.u32_be() == long, "u32_be of {v:X?} is {:#X}", s.u32_be());
        for (sz, want) in [(Size::Byte, v[0] as u8 as i8 as i32), (Size::Word, v[0] as i16 as i32), (Size::Long, long as i32)] { must!(ctx, it, "i32_be_sized", s.i32_be_sized(sz) == want, "i32_be_sized({sz:?}) of {v:X?} is {:#X}", s.i32_be_sized(sz)); }
        must!(ctx, it, "i32_be_sized short", (&v[..1]).i32_be_sized(Size::Word) == v[0] as i16 as i32, "i32_be_sized(Word) of one word");
        let mut t = s;
        for (k, w) in v.iter().enumerate() {
            let got = quiet(|| { let mut u = t; let g = u.get_next_word(); (g, u) });
            must!(ctx, it, "get_next_word", matches!(&got, Ok((g, u)) if g == w && *u == &v[k + 1..]), "get_next_word number {k} of {v:X?} gives {got:X?}");
            if let Ok((_, u)) = got { t = u; }
        }
    }
}

fn bit_fields(ctx: &mut Ctx, unit: u64, _: Range<u64>) {
    for d in (unit * 8192)..(unit * 8192 + 8192) {
        let d = d as u16;
        for i in 0..16u16 {
            must!(ctx, 0, "bit", bit(d, i) == (d >> i & 1 == 1), "bit({d:#06X}, {i}) gives {}", bit(d, i));
            for j in i..16 {
                if j - i == 15 { continue; }
                let want = (d as u32 >> i) % (1 << (j - i + 1));
                if bits(d, i, j) as u32 != want { ctx.violation(0, "bits", format!("bits({d:#06X}, {i}, {j}) gives {:#X}, not {want:#X}", bits(d, i, j))); }
            }
        }
        ctx.eval(hash(&[12, d as u64]));
    }
    ctx.count("bit fields", 8192 * 135);
    let z = i8::ZERO == 0 && u8::ZERO == 0 && i16::ZERO == 0 && u16::ZERO == 0 && i32::ZERO == 0 && u32::ZERO == 0;
    let m = i8::SIGN_BIT_MASK == i8::MIN && u8::SIGN_BIT_MASK == 0x80 && i16::SIGN_BIT_MASK == i16::MIN && u16::SIGN_BIT_MASK == 0x8000 && i32::SIGN_BIT_MASK == i32::MIN && u32::SIGN_BIT_MASK == 0x8000_0000;
    must!(ctx, 0, "integer constants", z && m, "the ZERO or SIGN_BIT_MASK constants are wrong (ZERO right: {z}, SIGN_BIT_MASK right: {m})");
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let k = if thorough { 25 } else { 1 };
    Some(match p {
        "C35" => (opts("C35", "value types and helpers against their documented meaning; distinct = opcodes, operand kinds, pairs of exceptions and sizes", 60_000), vec![
            work("registers", 8, 20_000 * k, registers), work("cores", 1, 1, cores), work("sizes", 1, 1, sizes), work("modes", 8, 40_000 * k, modes), work("words", 1, 1, words), work("exceptions", 1, 1, exceptions),
            work("accessors", 8, 1_000 * k, accessors), work("tables", 8, 32_768 * k, tables), work("iterator", 8, 20_000 * k, iterator), work("longs", 8, 20_000 * k, longs)]),
        "C40" => (opts("C40", "arithmetic helpers against exact integers; distinct = operand pairs", 100_000), vec![
            work("small", 8, 1, small), work("wide", 8, 60_000 * k, wide), work("bit_fields", 8, 1, bit_fields)]),
        _ => return None,
    })
}
