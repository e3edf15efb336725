//! Direct API workloads: assembler, decoder, disassembler, status register views and slice memories.
use crate::asmapi::*;
use crate::bus::*;
use crate::isa68k::*;
use crate::lockstep::*;
use crate::rng::*;
use crate::runner::*;
use crate::{single, text};
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::instruction::{Instruction, Size};
use m68000::isa::Isa;
use m68000::status_register::StatusRegister;
use m68000::{MemoryAccess, M68000};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> { catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e)) }

fn gen_call(rng: &mut Rng, f: F, bad_pct: u64) -> Call {
    let mut c = Call::new(f);
    let bad = |rng: &mut Rng| rng.chance(bad_pct, 100);
    let reg = |rng: &mut Rng, words: bool| -> u16 { if bad(rng) { let v = rng.pick(&[8u16, 9, 15, 16, 32, 64, 128, 255, 7, 0]); if words && rng.bool() { v << 8 | rng.below(8) as u16 } else { v } } else { rng.below(8) as u16 } };
    let w = regs_are_words(f);
    c.r1 = reg(rng, w);
    c.r2 = reg(rng, w);
    if !w { c.r1 &= 0xFF; c.r2 &= 0xFF; }
    if matches!(f, F::Addq | F::Subq) { c.r1 = if bad(rng) { rng.pick(&[0, 9, 10, 16, 255, 128]) } else { rng.range(1, 8) as u16 }; }
    if f == F::Trap { c.r2 = if bad(rng) { rng.pick(&[16, 17, 31, 32, 255]) } else { rng.below(16) as u16 }; }
    c.size = rng.pick(&SIZES);
    let mut good: &[m68000::instruction::Direction] = &DIRS;
    use m68000::instruction::Direction::*;
    match f {
        F::Abcd | F::Sbcd | F::Addx | F::Subx => good = &[RegisterToRegister, MemoryToMemory],
        F::Add | F::And | F::Or | F::Sub => good = &[DstReg, DstEa],
        F::Asm | F::Lsm | F::Rom | F::Roxm | F::Asr | F::Lsr | F::Ror | F::Roxr => good = &[Left, Right],
        F::Exg => good = &[ExchangeData, ExchangeAddress, ExchangeDataAddress],
        F::Moveusp => good = &[UspToRegister, RegisterToUsp],
        F::Movem | F::Movep => good = &[RegisterToMemory, MemoryToRegister],
        _ => {},
    }
    c.dir = if bad(rng) { rng.pick(&DIRS) } else { rng.pick(good) };
    let r = reg(rng, false) as u8;
    c.am = gen_am(rng, r);
    let r = reg(rng, false) as u8;
    c.am2 = gen_am(rng, r);
    c.imm = match rng.below(4) { 0 => gen_ext(rng) as u32, 1 => (rng.below(300) as i64 - 150) as u32, _ => rng.operand() };
    c.cond = rng.below(16) as usize;
    c.flag = rng.bool();
    c
}

/// An immediate that does not fit the operand size: refusing it and keeping its low-order bits are both fine.
fn imm_too_wide(c: &Call) -> bool {
    let too = |v: u32, s: Size| match s { Size::Byte => v > 0xFF, Size::Word => v > 0xFFFF, Size::Long => false };
    let s = match c.f {
        F::BtstD => Size::Byte,
        F::Moveccr | F::Movesr | F::Chk | F::Divs | F::Divu | F::Muls | F::Mulu => Size::Word,
        _ => c.size,
    };
    let ea = match c.am { Am::Immediate(v) => too(v, s), _ => false };
    ea || match c.f {
        F::Addi | F::Andi | F::Cmpi | F::Eori | F::Ori | F::Subi => too(c.imm, c.size),
        F::Andiccr | F::Eoriccr | F::Oriccr => too(c.imm & 0xFFFF, Size::Byte),
        F::BchgS | F::BclrS | F::BsetS | F::BtstS => c.imm & 0xFF > 7,
        _ => false,
    }
}

fn key(c: &Call) -> u64 {
    let h = |a: &Am| match *a { Am::Ariwd(r, _) => 0x500 | r as u64, Am::Ariwi8(r, b) => 0x600 | r as u64 | (b.0 as u64 >> 11) << 16, Am::AbsShort(_) => 0x700, Am::AbsLong(_) => 0x701, Am::Pciwd(..) => 0x702, Am::Pciwi8(..) => 0x703, Am::Immediate(_) => 0x704,
        Am::Drd(r) => r as u64, Am::Ard(r) => 0x100 | r as u64, Am::Ari(r) => 0x200 | r as u64, Am::Ariwpo(r) => 0x300 | r as u64, Am::Ariwpr(r) => 0x400 | r as u64 };
    mix((c.f as u64) << 50 ^ mix(h(&c.am) ^ mix(h(&c.am2) ^ mix((c.r1 as u64) << 32 | (c.r2 as u64) << 16 | (c.dir as u64) << 8 | c.size as u64) ^ (c.cond as u64) << 56 ^ (c.flag as u64) << 55)))
}

fn decode_at<M: MemoryAccess + ?Sized>(m: &mut M, at: u32) -> Result<(Result<Instruction, u8>, u32), String> {
    quiet(|| { let mut it = m.iter_u16(at); let r = Instruction::from_memory(&mut it); (r, it.next_addr) })
}

/// C23: assemble, decode, execute.
fn assembled<K: Kind>(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    let f = FS[(unit % FS.len() as u64) as usize];
    let mut p: Pair<K> = Pair::new(1);
    let mut out = Vec::new();
    let mut log = Vec::new();
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        let mut n = 0;
        let (call, (ins, want)) = loop {
            let k = gen_call(&mut rng, f, 0);
            if let Some(s) = spec(&k) { if !imm_too_wide(&k) || n > 40 { break (k, s); } }
            n += 1;
            if n > 5000 { panic!("no valid operands for {f:?}"); }
        };
        c.eval(key(&call));
        let got = match quiet(|| call.invoke()) {
            Ok(g) => g,
            Err(e) => { if !imm_too_wide(&call) { c.violation(it, &format!("{f:?}-refused"), format!("{call:?} refused: {e}")); } continue; },
        };
        let exact = !imm_too_wide(&call);
        if !(if exact { got == want } else { same_words(&ins, &got, &want) }) { c.violation(it, &format!("{f:?}-words"), format!("{call:?} emitted {got:04X?}, expected {want:04X?}")); continue; }
        c.sample(|| format!("{call:?} -> {got:04X?}"));
        // Decode it back.
        let at = rng.u32() & !1;
        let mut bus = Bus::new(rng.u64());
        for (i, w) in got.iter().enumerate() { bus.poke16(at.wrapping_add(2 * i as u32), *w); }
        let mut ext = [0u16; 8];
        ext[..got.len() - 1].copy_from_slice(&got[1..]);
        let exp = operands(got[0], &ext, at).expect("legal");
        match decode_at(&mut bus, at) {
            Ok((Ok(i), next)) => {
                if i.opcode != got[0] || i.pc != at || !(if exact { i.operands == exp } else { same_operands(&i.operands, &exp) }) { c.violation(it, &format!("{f:?}-decode"), format!("{call:?} -> {got:04X?} decodes to {i:X?}, expected {exp:X?}")); }
                if next != at.wrapping_add(2 * got.len() as u32) { c.violation(it, &format!("{f:?}-length"), format!("{call:?} -> {got:04X?} consumed {} bytes", next.wrapping_sub(at))); }
                // What the crate calls the instruction, and its reassembly.
                let isa = Isa::from(i.opcode);
                if format!("{isa:?}") != single::isa_name(&ins) { c.violation(it, &format!("{f:?}-name"), format!("{got:04X?} decodes to {isa:?}")); }
                match call_of(isa, i.operands, i.opcode) {
                    None => c.violation(it, &format!("{f:?}-reassemble"), format!("{i:X?} has no constructor")),
                    Some(back) => match quiet(|| back.invoke()) {
                        Ok(w) => if !same_words(&ins, &w, &got) { c.violation(it, &format!("{f:?}-reassemble"), format!("{got:04X?} -> {back:?} -> {w:04X?}")) },
                        Err(e) => c.violation(it, &format!("{f:?}-reassemble"), format!("{got:04X?} -> {back:?} refused: {e}")),
                    },
                }
            },
            o => c.violation(it, &format!("{f:?}-decode"), format!("{call:?} -> {got:04X?}: {o:?}")),
        }
        c.count("round trips", 1);
        // Execute the emitted words.
        if rng.chance(1, 2) {
            let g = single::Gen::default();
            single::setup(&mut p, &mut rng, got[0], &g, &mut log);
            let pc = p.m.c.pc;
            for (i, w) in got.iter().enumerate() { p.poke16(pc.wrapping_add(2 * i as u32), *w); }
            p.step(Via::Exc, &mut out);
            c.count("executions", 1);
            if let Some(d) = out.iter().find(|d| d.aspect & (A_DATA | A_ADDR | A_PC | A_VEC | A_WADDR | A_PANIC) != 0) { c.violation(it, &format!("{f:?}-execute"), format!("{call:?} -> {got:04X?}: {}", d.msg)); }
        }
    }
}

/// C23: every legal opcode word, decoded and assembled again.
fn reassemble(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        for lo in 0..256u16 {
            let op = (unit as u16) << 8 | lo;
            let Some(ins) = decode(op) else { continue };
            let at = rng.u32() & !1;
            let mut bus = Bus::new(rng.u64());
            bus.poke16(at, op);
            let mut ext = [0u16; 6];
            for (i, e) in ext.iter_mut().enumerate() { *e = gen_ext(&mut rng); bus.poke16(at.wrapping_add(2 + 2 * i as u32), *e); }
            c.eval(mix((op as u64) << 32 ^ (ext[0] >> 12) as u64 ^ 7));
            let Ok((Ok(i), next)) = decode_at(&mut bus, at) else { c.violation(it, &format!("{op:04X}-decode"), format!("{op:04X} {ext:04X?} cannot be decoded")); continue };
            let mut words = vec![op];
            words.extend(&ext[..ext_words(&ins) as usize]);
            if next != at.wrapping_add(2 * words.len() as u32) { c.violation(it, "length", format!("{words:04X?} consumed {} bytes", next.wrapping_sub(at))); continue; }
            let Some(call) = call_of(Isa::from(op), i.operands, op) else { c.violation(it, &format!("{}-no-constructor", single::isa_name(&ins)), format!("{words:04X?} -> {i:X?}")); continue };
            let sig = format!("{:?}-reassemble", call.f);
            match quiet(|| call.invoke()) {
                Err(e) => if !imm_too_wide(&call) { c.violation(it, &sig, format!("{words:04X?} -> {call:?} refused: {e}")) },
                Ok(got) => {
                    // A word displacement that fits a byte is emitted in the short form.
                    let short = matches!(ins, Ins::Bra(0) | Ins::Bsr(0) | Ins::Bcc { d: 0, .. }) && (ext[0] as i16) as i8 as i16 == ext[0] as i16 && ext[0] != 0;
                    let want = if short { vec![op | ext[0] & 0xFF] } else { words.clone() };
                    if !same_words(&ins, &got, &want) { c.violation(it, &sig, format!("{words:04X?} -> {call:?} -> {got:04X?}")); }
                    c.count("reassembled", 1);
                },
            }
        }
    }
}

/// C24: any operands.
fn any_call(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    let f = FS[(unit % FS.len() as u64) as usize];
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        let bad = rng.pick(&[0u64, 5, 15, 40]);
        let call = gen_call(&mut rng, f, bad);
        let s = spec(&call);
        c.eval(key(&call));
        match (quiet(|| call.invoke()), s) {
            // Known finding: BTST static takes an immediate destination (the repository's own test demands it), which is no instruction.
            (Ok(w), None) if f == F::BtstS && matches!(call.am, Am::Immediate(i) if w == [0x083C, call.imm as u8 as u16, i as u8 as u16] || w == [0x083C, call.imm as u8 as u16, i as u16]) => c.finding(it, "btst-static-immediate", "BtstS-accepted", format!("{call:?} emitted {w:04X?}")),
            (Ok(w), None) => c.violation(it, &format!("{f:?}-accepted"), format!("{call:?} emitted {w:04X?}")),
            (Ok(w), Some((ins, want))) => {
                c.count("accepted", 1);
                if !same_words(&ins, &w, &want) { c.violation(it, &format!("{f:?}-words"), format!("{call:?} emitted {w:04X?}, expected {want:04X?}")); }
                match decode(w[0]) { Some(i) if 1 + ext_words(&i) as usize == w.len() => {}, o => c.violation(it, &format!("{f:?}-illegal"), format!("{call:?} emitted {w:04X?} ({o:?})")) }
            },
            (Err(e), Some(_)) => if !imm_too_wide(&call) { c.violation(it, &format!("{f:?}-refused"), format!("{call:?} refused: {e}")) } else { c.count("refused (too wide)", 1) },
            (Err(_), None) => { c.count("refused", 1); c.sample(|| format!("{call:?} refused")); },
        }
    }
}
fn bew_api(c: &mut Ctx, _: u64, _: std::ops::Range<u64>) {
    for reg in 0..=255u8 { for a in [false, true] { for l in [false, true] { for d in i8::MIN..=i8::MAX {
        c.evals += 1;
        let r = if reg > 7 { if d != 5 { continue; } quiet(|| Bew::new(a, reg, l, d)) } else { Ok(Bew::new(a, reg, l, d)) };
        match r {
            Ok(b) => {
                let w = (a as u16) << 15 | (reg as u16) << 12 | (l as u16) << 11 | d as u8 as u16;
                if reg > 7 { c.violation(0, "bew-accepted", format!("BriefExtensionWord::new({a}, {reg}, {l}, {d}) = {:04X}", b.0)); }
                else if b.0 != w || b.disp() != d { c.violation(0, "bew-value", format!("BriefExtensionWord::new({a}, {reg}, {l}, {d}) = {:04X}, expected {w:04X}", b.0)); }
            },
            Err(e) => if reg <= 7 { c.violation(0, "bew-refused", e) },
        }
    } } } }
    // Destination fields of MOVE.
    for m in 0..12u64 { for r in 0..8u8 {
        let mut rng = Rng::new(m * 8 + r as u64);
        let am = loop { let a = gen_am(&mut rng, r); if lower(a, Sz::W).map(|x| std::mem::discriminant(&x.0)) == lower(nth(m, r), Sz::W).map(|x| std::mem::discriminant(&x.0)) { break a; } };
        let (e, x) = lower(am, Sz::W).unwrap();
        c.evals += 1;
        let src = am.assemble(false);
        let ext_ok = if e == Ea::Imm { src.1.len() == 1 && src.1[0] == x[0] } else { *src.1 == x[..] };
        if src.0 != e.bits() || !ext_ok { c.violation(0, "assemble", format!("{am:?}.assemble(false) = {src:04X?}")); }
        if let Am::Immediate(v) = am { let l = am.assemble(true); if l.0 != 60 || *l.1 != [(v >> 16) as u16, v as u16] { c.violation(0, "assemble-long", format!("{am:?}.assemble(true) = {l:04X?}")); } }
        let want = e.alterable().then_some(((e.bits() & 7) << 9 | (e.bits() >> 3) << 6, x));
        match (quiet(|| am.assemble_move_dst()), want) {
            (Ok(g), Some(w)) => if g.0 != w.0 || *g.1 != w.1[..] { c.violation(0, "assemble-dst", format!("{am:?}.assemble_move_dst() = {g:04X?}")) },
            (Ok(g), None) => c.violation(0, "assemble-dst-accepted", format!("{am:?}.assemble_move_dst() = {g:04X?}")),
            (Err(e), Some(_)) => c.violation(0, "assemble-dst-refused", format!("{am:?}: {e}")),
            _ => {},
        }
    } }
}
fn nth(m: u64, r: u8) -> Am {
    match m { 0 => Am::Drd(r), 1 => Am::Ard(r), 2 => Am::Ari(r), 3 => Am::Ariwpo(r), 4 => Am::Ariwpr(r), 5 => Am::Ariwd(r, 0), 6 => Am::Ariwi8(r, Bew(0)), 7 => Am::AbsShort(0), 8 => Am::AbsLong(0), 9 => Am::Pciwd(0, 0), 10 => Am::Pciwi8(0, Bew(0)), _ => Am::Immediate(0) }
}

/// C25 and C26: every opcode word.
fn decoding(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    let mut cpu = M68000::<Mc68000>::new_no_reset();
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        for lo in 0..256u16 {
            let op = (unit as u16) << 8 | lo;
            let at = match rng.below(8) { 0 => 0u32.wrapping_sub(2 * rng.range(1, 8) as u32), 1 => 2 * rng.below(8) as u32, _ => rng.u32() & !1 };
            let mut bus = Bus::new(rng.u64());
            bus.poke16(at, op);
            let mut ext = [0u16; 6];
            for (i, e) in ext.iter_mut().enumerate() { *e = gen_ext(&mut rng); bus.poke16(at.wrapping_add(2 + 2 * i as u32), *e); }
            let ins = decode(op);
            let n = ins.as_ref().map_or(0, ext_words);
            let sig = ins.map_or("unknown", |i| single::isa_name(&i)).to_string();
            c.eval(mix((op as u64) << 32 ^ ((ext[0] >> 11) as u64) << 8 ^ (ext[1] >> 13) as u64));
            let what = || format!("{op:04X} {:04X?} at {at:08X}", &ext[..n as usize]);
            let (r, next) = match decode_at(&mut bus, at) { Ok(x) => x, Err(e) => { c.violation(it, &format!("{sig}-panic"), format!("{}: {e}", what())); continue; } };
            let i = match r { Ok(i) => i, Err(v) => { c.violation(it, &format!("{sig}-error"), format!("{}: Err({v})", what())); continue; } };
            if i.opcode != op || i.pc != at { c.violation(it, &format!("{sig}-header"), format!("{}: {i:X?}", what())); }
            if next != at.wrapping_add(2 + 2 * n) { c.violation(it, &format!("{sig}-length"), format!("{}: read position {next:08X}", what())); }
            let exp = operands(op, &ext, at);
            match &exp {
                Some(e) => if !same_operands(&i.operands, e) { c.violation(it, &format!("{sig}-operands"), format!("{}: {:X?}, expected {e:X?}", what(), i.operands)) },
                None => if i.operands != m68000::instruction::Operands::NoOperands { c.violation(it, "unknown-operands", format!("{}: {:?}", what(), i.operands)) },
            }
            let mut reads: Vec<u32> = Vec::new();
            for e in &bus.log {
                if e.write { c.violation(it, &format!("{sig}-write"), format!("{}: decoding wrote {e:?}", what())); }
                for k in 0..e.size as u32 { reads.push(e.addr.wrapping_add(k)); }
            }
            let want: Vec<u32> = (0..2 + 2 * n).map(|k| at.wrapping_add(k)).collect();
            if reads != want { c.violation(it, &format!("{sig}-reads"), format!("{}: read {:X?}", what(), bus.log)); }
            c.count("words decoded", 1 + n as u64);
            c.sample(|| format!("{}: {:X?}", what(), i.operands));
            // The given opcode, the extension words from memory.
            bus.log.clear();
            let r = quiet(|| { let mut m = bus.iter_u16(at.wrapping_add(2)); let i = Instruction::from_opcode(op, at, &mut m); (i, m.next_addr) });
            match r { Ok((j, nx)) => if j != i || nx != next { c.violation(it, &format!("{sig}-from-opcode"), format!("{}: {j:X?} / {i:X?}", what())) }, Err(e) => c.violation(it, &format!("{sig}-panic"), e) }
            // Where the processor continues.
            if rng.chance(1, 4) {
                let plain = ins.map_or(false, |i| single::class(&i) != 7 && !matches!(i, Ins::Stop | Ins::Rte | Ins::Illegal));
                if plain {
                    cpu = M68000::<Mc68000>::new_no_reset();
                    cpu.regs.pc.0 = at;
                    cpu.regs.ssp.0 = rng.u32() & !1;
                    let r = quiet(|| cpu.interpreter_exception(&mut bus));
                    if let Ok((_, None)) = r { c.count("continuations compared", 1); if cpu.regs.pc.0 != next { c.violation(it, &format!("{sig}-continue"), format!("{}: the processor continues at {:08X}, decoding at {next:08X}", what(), cpu.regs.pc.0)); } }
                }
            }
        }
        // Reading positions that cannot be decoded, and the fetch helpers.
        let at = rng.u32() & !1;
        let mut bus = Bus::new(rng.u64());
        match decode_at(&mut bus, at | 1) { Ok((Err(3), _)) if bus.log.is_empty() => {}, o => c.violation(it, "odd", format!("decoding at an odd address: {o:X?}, bus {:?}", bus.log)) }
        bus.holes.push((at, at + 1, true, true));
        match decode_at(&mut bus, at) { Ok((Err(2), _)) => {}, o => c.violation(it, "refused", format!("decoding an unreadable word: {o:X?}")) }
        bus.holes.clear();
        fetchers(c, it, &mut cpu, &mut bus, &mut rng);
    }
}

fn fetchers(c: &mut Ctx, it: u64, cpu: &mut M68000<Mc68000>, bus: &mut Bus, rng: &mut Rng) {
    let at = match rng.below(4) { 0 => 0xFFFF_FFFE, 1 => rng.u32(), _ => rng.u32() & !1 };
    let hole = rng.chance(1, 4);
    let (w, l) = (bus.peek16(at), bus.peek32(at));
    if hole { let lo = at.wrapping_add(2 * rng.below(2) as u32) & !1; if lo < 0xFFFF_FFF0 { bus.holes.push((lo, lo + 1, true, true)); } }
    let f16 = bus.refused(at, 2, false);
    let f32 = bus.refused(at, 4, false);
    let exp16 = if at & 1 != 0 { Err(3) } else if f16 { Err(2) } else { Ok(w) };
    let exp32 = if at & 1 != 0 { Err(3) } else if f32 { Err(2) } else { Ok(l) };
    bus.log.clear();
    bus.odd = 0;
    cpu.regs.pc.0 = at;
    let before = regs_to_core(&cpu.regs, cpu.stop);
    let g = cpu.peek_next_word(bus);
    if g != exp16 || cpu.regs.pc.0 != at { c.violation(it, "peek_next_word", format!("at {at:08X}: {g:X?}, PC {:08X}", cpu.regs.pc.0)); }
    let g = cpu.get_next_word(bus);
    if g != exp16 || g.is_ok() && cpu.regs.pc.0 != at.wrapping_add(2) { c.violation(it, "get_next_word", format!("at {at:08X}: {g:X?}, PC {:08X}", cpu.regs.pc.0)); }
    cpu.regs.pc.0 = at;
    let g = cpu.get_next_long(bus);
    if g != exp32 || g.is_ok() && cpu.regs.pc.0 != at.wrapping_add(4) { c.violation(it, "get_next_long", format!("at {at:08X}: {g:X?}, PC {:08X}", cpu.regs.pc.0)); }
    cpu.regs.pc.0 = at;
    let after = regs_to_core(&cpu.regs, cpu.stop);
    if bus.odd != 0 || bus.log.iter().any(|e| e.write) || !before.diff(&after).is_empty() { c.violation(it, "fetch-side-effect", format!("fetching at {at:08X} changed something: {}", before.diff(&after))); }
    bus.holes.clear();
    c.count("fetch helper calls", 3);
}

/// C25: decoding from slices equals decoding from any other memory.
fn decode_slices(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        let n = rng.range(1, 40) as usize;
        let mut words: Vec<u16> = (0..n).map(|_| if rng.bool() { rng.u16() } else { gen_ext(&mut rng) }).collect();
        let mut bytes: Vec<u8> = words.iter().flat_map(|w| w.to_be_bytes()).collect();
        let mut bus = Bus::new(rng.u64());
        for (i, w) in words.iter().enumerate() { bus.poke16(2 * i as u32, *w); }
        bus.holes.push((2 * n as u32, u32::MAX, true, true));
        for _ in 0..4 {
            let at = 2 * rng.below(n as u64 + 1) as u32;
            let (a, b, d) = (decode_at(&mut bus, at), decode_at(&mut bytes[..], at), decode_at(&mut words[..], at));
            let (e, f) = (decode_at(&mut &bytes[..], at), decode_at(&mut &words[..], at));
            c.eval(mix((words.get(at as usize / 2).copied().unwrap_or(0) as u64) << 8 | 3));
            let same = |x: &Result<(Result<Instruction, u8>, u32), String>, y: &Result<(Result<Instruction, u8>, u32), String>| match (x, y) { (Ok(p), Ok(q)) => p == q, (Err(_), Err(_)) => true, _ => false };
            if !same(&a, &b) || !same(&a, &d) || !same(&a, &e) || !same(&a, &f) { c.violation(it, "slices", format!("decoding {:04X?} at {at}: {a:?} / {b:?} / {d:?} / {e:?} / {f:?}", words)); }
            // Whole instruction inside: never a failure.
            if let Some(op) = words.get(at as usize / 2) {
                let need = 1 + decode(*op).as_ref().map_or(0, ext_words) as usize;
                if at as usize / 2 + need <= n { c.count("slice decodes", 1); if !matches!(b, Ok((Ok(_), nx)) if nx == at + 2 * need as u32) { c.violation(it, "slice-failed", format!("decoding {:04X?} at {at}: {b:?}", words)); } }
            }
        }
    }
}

/// C26: the text.
fn disassembly<K: Kind>(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        for lo in 0..256u16 {
            let op = (unit as u16) << 8 | lo;
            let at = match rng.below(8) { 0 => 0u32.wrapping_sub(2 * rng.range(1, 8) as u32), 1 => 2 * rng.below(8) as u32, _ => rng.u32() & !1 };
            let mut bus = Bus::new(rng.u64());
            bus.poke16(at, op);
            let mut ext = [0u16; 6];
            for (i, e) in ext.iter_mut().enumerate() { *e = gen_ext(&mut rng); bus.poke16(at.wrapping_add(2 + 2 * i as u32), *e); }
            let ins = decode(op);
            let n = ins.as_ref().map_or(0, ext_words);
            let sig = ins.map_or("unknown", |i| single::isa_name(&i)).to_string();
            c.eval(mix((op as u64) << 32 ^ ((ext[0] >> 11) as u64) << 8 ^ (ext[1] >> 13) as u64));
            let what = || format!("{op:04X} {:04X?} at {at:08X}", &ext[..n as usize]);
            let r = quiet(|| { let mut m = bus.iter_u16(at); let i = Instruction::from_memory(&mut m).ok()?; Some((i.disassemble(), format!("{i}"), m68000::disassembler::DLUT[m68000::decoder::DECODER[op as usize] as usize](&i))) });
            let (t, t2, t3) = match r { Ok(Some(x)) => x, Ok(None) => { c.violation(it, &format!("{sig}-error"), what()); continue; }, Err(e) => { c.violation(it, &format!("{sig}-panic"), format!("{}: {e}", what())); continue; } };
            if t != t2 || t != t3 { c.violation(it, &format!("{sig}-variants"), format!("{}: {t:?}, {t2:?}, {t3:?}", what())); }
            let res = match ins { Some(i) => text::check(&t, &text::expect(&i, &operands(op, &ext, at).unwrap(), &ext, at)), None => unknown_text(&t, op) };
            if let Err(e) = res { c.violation(it, &format!("{sig}-text"), format!("{}: {t:?}: {e}", what())); }
            c.sample(|| format!("{}: {t}", what()));
            c.count("texts judged", 1);
            // The text given while executing.
            if rng.chance(1, 3) {
                let mut cpu = M68000::<K>::new_no_reset();
                cpu.regs.pc.0 = at;
                cpu.regs.ssp.0 = rng.u32() & !1;
                for d in 0..8 { cpu.regs.d[d].0 = rng.operand(); }
                for a in 0..7 { cpu.regs.a[a].0 = rng.u32() & !1; }
                let own = rng.bool();
                let r = quiet(|| if own { let (a, s, _) = cpu.disassembler_interpreter(&mut bus); (a, s) } else { let (a, s, _, _) = cpu.disassembler_interpreter_exception(&mut bus); (a, s) });
                match r {
                    Ok((a, s)) => { c.count("texts of executed instructions", 1); if s != t || a != at { c.violation(it, &format!("{sig}-executed-text"), format!("{}: the stepping function reports {s:?} at {a:08X}, disassembly says {t:?}", what())); } },
                    Err(e) => c.violation(it, &format!("{sig}-panic"), format!("{}: {e}", what())),
                }
            }
        }
    }
}
/// Words that are not instructions: the text names no instruction and shows the word.
fn unknown_text(t: &str, op: u16) -> Result<(), String> {
    let up = t.to_ascii_uppercase();
    if !up.contains(&format!("{op:04X}")) { return Err(format!("does not show the word {op:04X}")); }
    let first: String = up.chars().take_while(|c| c.is_ascii_alphanumeric()).collect();
    if FS.iter().any(|f| format!("{f:?}").to_ascii_uppercase() == first) || first.starts_with("MOVE") { return Err("shown as an instruction".into()); }
    Ok(())
}

/// C27: exhaustive.
fn sr_views(c: &mut Ctx, unit: u64, _: std::ops::Range<u64>) {
    // 1024 structured values, split over 64 units.
    const M: u16 = 0xA71F;
    let enc = |i: u16| -> u16 { (i & 0x1F) | (i >> 5 & 7) << 8 | (i >> 8 & 1) << 13 | (i >> 9 & 1) << 15 };
    for i in (unit as u16 * 16)..(unit as u16 * 16 + 16) {
        c.beat(i as u64);
        let v = enc(i);
        let mut s = StatusRegister::default();
        set_sr(&mut s, v);
        c.eval(v as u64);
        let back: u16 = s.into();
        if back != v { c.violation(i as u64, "into", format!("{s:?} encodes to {back:04X}, expected {v:04X}")); }
        for cc in 0..16u8 {
            let (x, n, z, vf, cf) = (v & 16 != 0, v & 8 != 0, v & 4 != 0, v & 2 != 0, v & 1 != 0);
            let _ = x;
            let w = match cc { 0 => true, 1 => false, 2 => !cf & !z, 3 => cf | z, 4 => !cf, 5 => cf, 6 => !z, 7 => z, 8 => !vf, 9 => vf, 10 => !n, 11 => n, 12 => n == vf, 13 => n != vf, 14 => !z & (n == vf), _ => z | (n != vf) };
            c.evals += 1;
            if s.condition(cc) != w { c.violation(i as u64, "condition", format!("condition {cc} of {v:04X} is {}", !w)); }
        }
        for r in 0..=0xFFFFu16 {
            let (mut a, mut o, mut x, mut k) = (s, s, s, s);
            a &= r; o |= r; x ^= r; k.set_ccr(r);
            c.evals += 4;
            if sr_bits(&a) != v & r { c.violation(i as u64, "and", format!("{v:04X} &= {r:04X} gives {:04X}", sr_bits(&a))); }
            if sr_bits(&o) != (v | r) & M { c.violation(i as u64, "or", format!("{v:04X} |= {r:04X} gives {:04X}", sr_bits(&o))); }
            if sr_bits(&x) != (v ^ r) & M { c.violation(i as u64, "xor", format!("{v:04X} ^= {r:04X} gives {:04X}", sr_bits(&x))); }
            if sr_bits(&k) != v & 0xFFE0 | r & 0x1F { c.violation(i as u64, "ccr", format!("set_ccr({r:04X}) on {v:04X} gives {:04X}", sr_bits(&k))); }
        }
    }
    for r in (unit as u32 * 1024)..(unit as u32 * 1024 + 1024) {
        let r = r as u16;
        let s = StatusRegister::from(r);
        c.eval(0x1_0000 | r as u64);
        let b: u16 = s.into();
        if sr_bits(&s) != r & M || b != r & M { c.violation(0, "from", format!("{r:04X} reads back as {b:04X} / {:04X}", sr_bits(&s))); }
    }
    if unit == 0 {
        if sr_bits(&StatusRegister::default()) != 0x2700 { c.violation(0, "default", format!("default is {:04X}", sr_bits(&StatusRegister::default()))); }
        let r = m68000::Registers::default();
        if sr_bits(&r.sr) != 0x2700 && sr_bits(&r.sr) != 0 { c.violation(0, "registers-default", format!("{:04X}", sr_bits(&r.sr))); }
        c.sample(|| "1024 structured values x 65536 operands x (and, or, xor, set_ccr), 16 conditions, 65536 encodings".into());
    }
}

/// C28: access histories on slices.
fn slices(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    const G: usize = 8;
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        let big = unit % 8 == 0 && it < 4;
        let len = if big { rng.pick(&[0x1_0000usize, 0x1_0002, 0x2_0004, 0x12_3456, 0x100_0002]) } else { match rng.below(4) { 0 => rng.below(6) as usize, 1 => rng.range(60, 70) as usize, 2 => rng.below(600) as usize, _ => rng.below(40) as usize } };
        // One backing store per kind, with guards around the slice.
        let mut b8: Vec<u8> = (0..len + 2 * G).map(|_| rng.u8()).collect();
        let wl = len / 2;
        let mut b16: Vec<u16> = vec![0; wl + 2 * G];
        for i in 0..wl { b16[G + i] = (b8[G + 2 * i] as u16) << 8 | b8[G + 2 * i + 1] as u16; }
        for i in 0..G { b16[i] = rng.u16(); b16[G + wl + i] = rng.u16(); }
        let mut m8 = b8.clone(); // models
        let mut m16: Vec<u8> = b16.iter().flat_map(|w| w.to_be_bytes()).collect();
        let n = if big { 4000 } else { 60 };
        for k in 0..n {
            let end = len as u32;
            let mut addr = match rng.below(10) {
                // In a large one, often next to the powers of two.
                0..=1 if big => ((1u32 << rng.range(1, 64 - (len as u64).leading_zeros() as u64)) as u32).wrapping_add(rng.below(10) as u32).wrapping_sub(5),
                0..=4 => rng.below(len as u64 + 1) as u32,
                5 | 6 => end.wrapping_add(rng.below(10) as u32).wrapping_sub(5),
                7 => 0u32.wrapping_sub(rng.range(1, 6) as u32),
                8 => rng.u32(),
                _ => (rng.below(len as u64 + 1) as u32).wrapping_add(rng.pick(&[0x100, 0x1_0000, 0x100_0000, 0x8000_0000, 0x4000_0000])),
            };
            let size = rng.pick(&[1u32, 2, 4]);
            if size > 1 { addr &= !1; }
            let val = rng.operand() & match size { 1 => 0xFF, 2 => 0xFFFF, _ => !0 };
            let op = rng.below(4); // 0,1 read (1: through a shared slice), 2 write, 3 write through a shared slice
            if op == 3 && !rng.chance(1, 16) { continue; }
            c.eval(mix((size as u64) << 8 | op << 4 | (addr as i64 - end as i64).clamp(-6, 6) as u64 & 15 | ((end % 4) as u64) << 16));
            for kind in 0..2 {
                let (total, model): (u64, &mut Vec<u8>) = if kind == 0 { (len as u64, &mut m8) } else { (2 * wl as u64, &mut m16) };
                let g = if kind == 0 { G } else { 2 * G };
                let inside = |a: u32, s: u32| a as u64 + s as u64 <= total;
                let what = || format!("{} of {total} bytes, step {k}: size {size} at {addr:08X}", if kind == 0 { "[u8]" } else { "[u16]" });
                let sig = format!("{}-{}{}", if kind == 0 { "u8" } else { "u16" }, ["read", "read-shared", "write", "write-shared"][op as usize], size);
                let s8 = &mut b8[G..G + len];
                let s16 = &mut b16[G..G + wl];
                if op < 2 {
                    let shared = op == 1;
                    fn rd<M: MemoryAccess + ?Sized>(m: &mut M, addr: u32, size: u32) -> Option<u32> { match size { 1 => m.get_byte(addr).map(|x| x as u32), 2 => m.get_word(addr).map(|x| x as u32), _ => m.get_long(addr) } }
                    let got = quiet(|| match (kind, shared) { (0, false) => rd(s8, addr, size), (0, true) => rd(&mut &*s8, addr, size), (_, false) => rd(s16, addr, size), _ => rd(&mut &*s16, addr, size) });
                    let want = inside(addr, size).then(|| (0..size as usize).fold(0u32, |a, i| a << 8 | model[g + addr as usize + i] as u32));
                    match got { Ok(x) => if x != want { c.violation(it, &sig, format!("{}: {x:X?}, expected {want:X?}", what())) }, Err(e) => c.violation(it, &format!("{sig}-panic"), format!("{}: {e}", what())) }
                    c.count(if want.is_some() { "reads inside" } else { "reads refused" }, 1);
                } else {
                    fn wr<M: MemoryAccess + ?Sized>(m: &mut M, addr: u32, size: u32, v: u32) -> Option<()> { match size { 1 => m.set_byte(addr, v as u8), 2 => m.set_word(addr, v as u16), _ => m.set_long(addr, v) } }
                    if op == 3 {
                        let got = quiet(|| if kind == 0 { wr(&mut &*s8, addr, size, val) } else { wr(&mut &*s16, addr, size, val) });
                        if got.is_ok() { c.violation(it, &sig, format!("{}: writing through a shared slice did not panic", what())); }
                        c.count("writes to shared slices", 1);
                    } else {
                        let got = quiet(|| if kind == 0 { wr(s8, addr, size, val) } else { wr(s16, addr, size, val) });
                        let ok = inside(addr, size);
                        match got { Ok(x) => if x.is_some() != ok { c.violation(it, &sig, format!("{}: {x:?}", what())) }, Err(e) => c.violation(it, &format!("{sig}-panic"), format!("{}: {e}", what())) }
                        let put = |model: &mut Vec<u8>, at: u32, s: u32, v: u32| for i in 0..s { model[g + at as usize + i as usize] = (v >> (8 * (s - 1 - i))) as u8; };
                        if ok { put(model, addr, size, val); c.count("writes inside", 1); } else {
                            c.count("writes refused", 1);
                            // A refused long access may have transferred its first word.
                            if size == 4 && inside(addr, 2) {
                                let at = addr as usize;
                                let now = if kind == 0 { (b8[G + at] as u32) << 8 | b8[G + at + 1] as u32 } else { b16[G + at / 2] as u32 };
                                let old = (model[g + at] as u32) << 8 | model[g + at + 1] as u32;
                                if now != old && now == val >> 16 { put(model, addr, 2, val >> 16); }
                            }
                        }
                    }
                }
            }
            if !big || k % 500 == 499 || k == n - 1 {
                if b8 != m8 { let p = b8.iter().zip(&m8).position(|(a, b)| a != b).unwrap(); c.violation(it, "u8-content", format!("[u8] of {len} bytes: byte {} is {:02X}, expected {:02X} after size {size} at {addr:08X}", p as i64 - G as i64, b8[p], m8[p])); m8.clone_from(&b8); }
                let flat: bool = b16.iter().enumerate().all(|(i, w)| m16[2 * i] == (w >> 8) as u8 && m16[2 * i + 1] == *w as u8);
                if !flat { c.violation(it, "u16-content", format!("[u16] of {wl} words differs after size {size} at {addr:08X} (operation {op})")); m16 = b16.iter().flat_map(|w| w.to_be_bytes()).collect(); }
            }
        }
        b8[G..G + len].reset_instruction();
        b16[G..G + wl].reset_instruction();
        if b8 != m8 { c.violation(it, "reset", "reset_instruction changed a byte slice".into()); }
    }
}

/// C28: a program run from each slice kind gives the same registers and the same contents.
fn slice_programs<K: Kind>(c: &mut Ctx, unit: u64, iters: std::ops::Range<u64>) {
    for it in iters {
        c.beat(it);
        let mut rng = c.rng(unit, it);
        let wl = rng.range(16, 300) as usize;
        let mut w16: Vec<u16> = (0..wl).map(|_| if rng.bool() { rng.u16() } else { rng.pick(&[0x3018u16, 0x20C1, 0x12C2, 0xD058, 0x4A98, 0x5288, 0x30C0, 0x4298, 0x51C8, 0x2F00, 0x301F]) }).collect();
        for i in 0..8 { w16[2 * i] = 0; w16[2 * i + 1] = 2 * rng.below(wl as u64 + 4) as u16; }
        let mut w8: Vec<u8> = w16.iter().flat_map(|w| w.to_be_bytes()).collect();
        let mut bus = Bus::new(1);
        bus.logging = false;
        for (i, w) in w16.iter().enumerate() { bus.poke16(2 * i as u32, *w); }
        bus.holes.push((2 * wl as u32, u32::MAX, true, true));
        let mut a = M68000::<K>::new_no_reset();
        for i in 0..8 { a.regs.d[i].0 = rng.operand(); }
        for i in 0..7 { a.regs.a[i].0 = rng.below(2 * wl as u64 + 8) as u32 & if rng.chance(1, 8) { !0 } else { !1 }; }
        a.regs.ssp.0 = 2 * rng.below(wl as u64 + 2) as u32;
        a.regs.pc.0 = 32 + 2 * rng.below(wl as u64 - 16) as u32;
        let mut b = a.clone();
        let mut d = a.clone();
        for k in 0..60 {
            // Long writes that straddle the end may or may not transfer their first word.
            let x = quiet(|| a.interpreter(&mut Split(&mut bus)));
            let y = quiet(|| b.interpreter(&mut w8[..]));
            let z = quiet(|| d.interpreter(&mut w16[..]));
            c.eval(mix(a.regs.pc.0 as u64 ^ (bus.peek16(a.regs.pc.0) as u64) << 32));
            if x.is_ok() != y.is_ok() || y.is_ok() != z.is_ok() { c.violation(it, "program-panic", format!("step {k}: {x:?} / {y:?} / {z:?}")); break; }
            if x.is_err() { c.count("programs ended by an unreadable extension word", 1); break; }
            let (ca, cb, cd) = (regs_to_core(&a.regs, a.stop), regs_to_core(&b.regs, b.stop), regs_to_core(&d.regs, d.stop));
            if x != y || y != z || !ca.diff(&cb).is_empty() || !cb.diff(&cd).is_empty() { c.violation(it, "program", format!("step {k}: {x:?}/{y:?}/{z:?} cycles, {} {}", ca.diff(&cb), cb.diff(&cd))); break; }
        }
        for i in 0..2 * wl { let (p, q, r) = (bus.peek8(i as u32), w8[i], (w16[i / 2] >> if i & 1 == 0 { 8 } else { 0 }) as u8); if p != q || q != r { c.violation(it, "program-memory", format!("byte {i}: {p:02X} / {q:02X} / {r:02X}")); break; } }
        c.count("programs run from slices", 1);
    }
}

fn opt(prop: &'static str, rule: &'static str, min: u64) -> Options { Options { prop, level: "exploration", rule, min_distinct: min, assumptions: vec!["the crate is built optimised with overflow checks on", "the opcode map in isa68k.rs is the manual's"] } }

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let m = if thorough { 25 } else { 1 };
    let nf = FS.len() as u64;
    Some(match p {
        "C23" => (opt("C23", "distinct (function, registers, size, direction, modes, condition) calls assembled, decoded back, reassembled and executed; distinct opcode words reassembled", 10_000), vec![
            work("assembled-68000", nf, 3000 * m, assembled::<Mc68000>), work("assembled-68070", nf, 1500 * m, assembled::<Scc68070>), work("reassemble", 256, 40 * m, reassemble)]),
        "C24" => (opt("C24", "distinct (function, registers, size, direction, modes, condition) calls judged accepted or refused", 10_000), vec![work("calls", 2 * nf, 15_000 * m, any_call), work("words", 1, 1, bew_api)]),
        "C25" => (opt("C25", "distinct (opcode word, extension word class) decoded with the bus log compared", 65_536), vec![work("decoding", 256, 60 * m, decoding), work("slices", 32, 4000 * m, decode_slices)]),
        "C26" => (opt("C26", "distinct (opcode word, extension word class) whose text was read back", 65_536), vec![work("text-68000", 256, 40 * m, disassembly::<Mc68000>), work("text-68070", 256, 10 * m, disassembly::<Scc68070>)]),
        "C27" => (opt("C27", "structured values and encodings, exhaustively", 60_000), vec![work("views", 64, 1, sr_views)]),
        "C28" => (opt("C28", "distinct (size, operation, distance of the address to the end, length class)", 200), vec![work("histories", 64, 4000 * m, slices), work("programs-68000", 32, 800 * m, slice_programs::<Mc68000>), work("programs-68070", 32, 800 * m, slice_programs::<Scc68070>)]),
        _ => return None,
    })
}
