//! Single-step workloads: every opcode word, executed from many generated machine states, in lockstep with the
//! reference machine.
use crate::bus::*;
use crate::grid::grids;
use crate::hist::{histories, Cfg, CFG};
use crate::isa68k::*;
use crate::lockstep::*;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::timing::{TagA, TagB};
use m68000::cpu_details::{Mc68000, Scc68070};
use std::ops::Range;
use std::sync::OnceLock;

/// Name of the instruction, as the crate's `Isa` enumeration calls it.
pub fn isa_name(i: &Ins) -> &'static str {
    match *i {
        Ins::CcrImm(k) => match k { Alu::And => "Andiccr", Alu::Or => "Oriccr", _ => "Eoriccr" },
        Ins::SrImm(k) => match k { Alu::And => "Andisr", Alu::Or => "Orisr", _ => "Eorisr" },
        Ins::AluImm { k, .. } => match k { Alu::And => "Andi", Alu::Or => "Ori", Alu::Eor => "Eori", Alu::Add => "Addi", Alu::Sub => "Subi", Alu::Cmp => "Cmpi" },
        Ins::BitDyn { k, .. } | Ins::BitImm { k, .. } => match k { Bit::Tst => "Btst", Bit::Chg => "Bchg", Bit::Clr => "Bclr", Bit::Set => "Bset" },
        Ins::Movep { .. } => "Movep", Ins::Move { .. } => "Move", Ins::Movea { .. } => "Movea", Ins::FromSr(_) => "Movefsr", Ins::ToCcr(_) => "Moveccr", Ins::ToSr(_) => "Movesr",
        Ins::Negx(..) => "Negx", Ins::Clr(..) => "Clr", Ins::Neg(..) => "Neg", Ins::Not(..) => "Not", Ins::Tst(..) => "Tst", Ins::Nbcd(_) => "Nbcd", Ins::Pea(_) => "Pea", Ins::Swap(_) => "Swap",
        Ins::Ext { .. } => "Ext", Ins::Movem { .. } => "Movem", Ins::Tas(_) => "Tas", Ins::Illegal => "Illegal", Ins::Trap(_) => "Trap", Ins::Link(_) => "Link", Ins::Unlk(_) => "Unlk",
        Ins::Usp { .. } => "Moveusp", Ins::Reset => "Reset", Ins::Nop => "Nop", Ins::Stop => "Stop", Ins::Rte => "Rte", Ins::Rts => "Rts", Ins::Trapv => "Trapv", Ins::Rtr => "Rtr",
        Ins::Jsr(_) => "Jsr", Ins::Jmp(_) => "Jmp", Ins::Chk { .. } => "Chk", Ins::Lea { .. } => "Lea", Ins::Addq { .. } => "Addq", Ins::Subq { .. } => "Subq", Ins::Scc { .. } => "Scc", Ins::Dbcc { .. } => "Dbcc",
        Ins::Bra(_) => "Bra", Ins::Bsr(_) => "Bsr", Ins::Bcc { .. } => "Bcc", Ins::Moveq { .. } => "Moveq",
        Ins::Alu { k, .. } => match k { Alu::And => "And", Alu::Or => "Or", Alu::Eor => "Eor", Alu::Add => "Add", Alu::Sub => "Sub", Alu::Cmp => "Cmp" },
        Ins::Mul { signed, .. } => if signed { "Muls" } else { "Mulu" }, Ins::Div { signed, .. } => if signed { "Divs" } else { "Divu" },
        Ins::Abcd { .. } => "Abcd", Ins::Sbcd { .. } => "Sbcd",
        Ins::AluA { k, .. } => match k { Alu::Add => "Adda", Alu::Sub => "Suba", _ => "Cmpa" },
        Ins::Addx { .. } => "Addx", Ins::Subx { .. } => "Subx", Ins::Cmpm { .. } => "Cmpm", Ins::Exg { .. } => "Exg",
        Ins::ShReg { k, .. } => match k { Sh::As => "Asr", Sh::Ls => "Lsr", Sh::Ro => "Ror", Sh::Rox => "Roxr" },
        Ins::ShMem { k, .. } => match k { Sh::As => "Asm", Sh::Ls => "Lsm", Sh::Ro => "Rom", Sh::Rox => "Roxm" },
    }
}
pub fn op_name(op: u16) -> &'static str { decode(op).map_or("Unknown", |i| isa_name(&i)) }

/// Property that specifies the result of the instruction.
pub fn class(i: &Ins) -> u32 {
    match i {
        Ins::Move { .. } | Ins::Movea { .. } | Ins::Moveq { .. } | Ins::Movem { .. } | Ins::Movep { .. } | Ins::Lea { .. } | Ins::Pea(_) | Ins::Exg { .. } | Ins::Swap(_) | Ins::Link(_) | Ins::Unlk(_) => 1,
        Ins::AluImm { k, .. } | Ins::Alu { k, .. } => if matches!(k, Alu::Add | Alu::Sub | Alu::Cmp) { 2 } else { 4 },
        Ins::AluA { .. } | Ins::Addq { .. } | Ins::Subq { .. } | Ins::Addx { .. } | Ins::Subx { .. } | Ins::Cmpm { .. } | Ins::Neg(..) | Ins::Negx(..) | Ins::Clr(..) | Ins::Tst(..) | Ins::Ext { .. } => 2,
        Ins::Mul { .. } | Ins::Div { .. } | Ins::Chk { .. } => 3,
        Ins::Not(..) | Ins::BitDyn { .. } | Ins::BitImm { .. } | Ins::Tas(_) | Ins::Scc { .. } => 4,
        Ins::ShReg { .. } | Ins::ShMem { .. } => 5,
        Ins::Nbcd(_) | Ins::Abcd { .. } | Ins::Sbcd { .. } => 6,
        Ins::Bra(_) | Ins::Bcc { .. } | Ins::Dbcc { .. } | Ins::Jmp(_) | Ins::Bsr(_) | Ins::Jsr(_) | Ins::Rts | Ins::Rtr | Ins::Trap(_) | Ins::Trapv => 7,
        Ins::FromSr(_) | Ins::ToSr(_) | Ins::ToCcr(_) | Ins::Usp { .. } | Ins::SrImm(_) | Ins::CcrImm(_) | Ins::Reset | Ins::Stop | Ins::Nop => 10,
        Ins::Illegal => 16,
        Ins::Rte => 13,
    }
}

/// Instructions whose operand addresses can be observed without depending on their arithmetic.
fn has_ea(i: &Ins) -> bool {
    match *i {
        Ins::Move { src, dst, .. } => src.memory() && src != Ea::Imm || dst.memory(),
        Ins::Movea { src: ea, .. } | Ins::Chk { ea, .. } | Ins::Mul { ea, .. } | Ins::Scc { ea, .. } | Ins::BitDyn { ea, .. } | Ins::BitImm { ea, .. } | Ins::AluImm { ea, .. } | Ins::Alu { ea, .. }
        | Ins::Negx(_, ea) | Ins::Clr(_, ea) | Ins::Neg(_, ea) | Ins::Not(_, ea) | Ins::Tst(_, ea) | Ins::FromSr(ea) | Ins::ToCcr(ea) | Ins::Nbcd(ea) | Ins::Tas(ea) | Ins::ShMem { ea, .. } => ea.memory() && ea != Ea::Imm,
        Ins::AluA { k: Alu::Cmp, ea, .. } => ea.memory() && ea != Ea::Imm,
        Ins::Lea { .. } | Ins::Pea(_) | Ins::Jmp(_) | Ins::Jsr(_) | Ins::Movem { .. } | Ins::Cmpm { .. } => true,
        Ins::Addx { mem, .. } | Ins::Subx { mem, .. } | Ins::Abcd { mem, .. } | Ins::Sbcd { mem, .. } => mem,
        _ => false,
    }
}

fn all_ops(f: impl Fn(u16, Option<Ins>) -> bool) -> Vec<u16> { (0..=0xFFFFu16).filter(|o| f(*o, decode(*o))).collect() }

pub struct Gen { pub sup: Option<bool>, pub trace: Option<bool>, pub odd_pct: u64, pub aligned: bool }
impl Default for Gen { fn default() -> Self { Gen { sup: None, trace: None, odd_pct: 2, aligned: true } } }

fn related(rng: &mut Rng, v: u32) -> u32 {
    match rng.below(8) { 0 | 1 => v, 2 => v.wrapping_neg(), 3 => !v, 4 => v.wrapping_add(1), 5 => v.wrapping_sub(1), 6 => v << 16 | v & 0xFFFF, _ => v ^ 1 << rng.below(32) }
}
/// Status words as system code spells them: a field set or cleared, the rest neutral.
fn sr_like(rng: &mut Rng) -> u16 {
    let f = rng.pick(&[0x0700u16, 0x2000, 0x8000, 0x2700, 0xA700, 0xA000, 0x001F, 0x0001, 0x0004, 0x0010, 0x071F, 0xA71F, 0x0100, 0x0600]);
    let l = (rng.below(8) as u16) << 8;
    match rng.below(6) { 0 | 1 => f, 2 | 3 => !f, 4 => l | 0x2000, _ => !l }
}

/// Prepares a random state about to execute `op`.
pub fn setup<K: Kind>(p: &mut Pair<K>, rng: &mut Rng, op: u16, g: &Gen, log: &mut Vec<Ev>) {
    let ins = decode(op);
    p.reset_to(rng.u64());
    // What ran before must not matter.
    if rng.chance(1, 3) { let r = rng.u16(); p.executed_before(rng.pick(&[0x4E71, 0x4AFC, 0xA000 | r & 0xFFF, 0xF000 | r & 0xFFF, 0x7000 | r & 0xEFF])); }
    let bcd = matches!(ins, Some(Ins::Abcd { .. } | Ins::Sbcd { .. } | Ins::Nbcd(_)));
    if bcd && rng.chance(7, 8) { p.set_fill(Fill::Bcd); } else if rng.chance(1, 2) { p.set_fill(Fill::Edge); }
    let mut c = gen_core(rng, g.sup, if g.aligned { g.odd_pct } else { 30 });
    // Operands that are equal, opposite or next to each other.
    if !bcd && rng.chance(1, 5) {
        let v = c.d[rng.below(8) as usize];
        for d in c.d.iter_mut() { if rng.bool() { *d = related(rng, v); } }
        if rng.bool() { p.set_fill(Fill::Near(v)); }
    }
    if let Some(t) = g.trace { c.sr = c.sr & !T | if t { T } else { 0 }; }
    c.pc &= !1;
    if bcd && rng.chance(7, 8) { for d in c.d.iter_mut() { *d = *d & !0xFF | (rng.below(10) << 4 | rng.below(10)) as u32; } }
    if let Some(Ins::ShReg { by_reg: true, cnt, .. }) = ins { if rng.bool() { c.d[cnt as usize] = c.d[cnt as usize] & !0x3F | rng.below(64) as u32; } }
    if let Some(Ins::Dbcc { dn, .. }) = ins { if rng.bool() { c.d[dn as usize] = c.d[dn as usize] & !0xFFFF | rng.pick(&[0, 1, 2, 0xFFFF, 0x8000, 0x100]); } }
    if matches!(ins, Some(Ins::BitDyn { .. })) && rng.bool() { if let Some(Ins::BitDyn { dn, .. }) = ins { c.d[dn as usize] = rng.below(256) as u32; } }
    let nx = ins.as_ref().map_or(0, ext_words);
    let mut ext = [0u16; 5];
    for e in ext.iter_mut() { *e = gen_ext(rng); }
    if matches!(ins, Some(Ins::SrImm(_) | Ins::CcrImm(_) | Ins::Stop)) && rng.bool() { ext[0] = sr_like(rng); }
    if let Some(Ins::ToSr(Ea::D(r)) | Ins::ToCcr(Ea::D(r))) = ins { if rng.bool() { c.d[r as usize] = c.d[r as usize] & 0xFFFF_0000 | sr_like(rng) as u32; } }
    let place = |p: &mut Pair<K>, c: &Core, ext: &[u16; 5]| {
        p.poke16(c.pc, op);
        for i in 0..nx { p.poke16(c.pc.wrapping_add(2 + 2 * i), ext[i as usize]); }
        p.set_core(c);
    };
    place(p, &c, &ext);
    if K::FMT == Fmt::Scc && matches!(ins, Some(Ins::Rte)) {
        let f = match rng.below(8) { 0..=3 => 0, 4..=6 => 0xF000u16, _ => (rng.below(16) as u16) << 12 } | rng.u16() & 0xFFF;
        p.poke16(c.ssp.wrapping_add(6), f);
    }
    if g.aligned {
        // Move towards a state in which the operands are aligned.
        for attempt in 0..4 {
            p.peek(log);
            if p.m.r.vector != Some(3) { break; }
            match attempt {
                0 => if nx > 0 { ext[nx as usize - 1] ^= 1; },
                1 => for e in ext.iter_mut() { *e &= !1; },
                2 => { for d in c.d.iter_mut() { *d &= !1; } for a in c.a.iter_mut() { *a &= !1; } c.usp &= !1; c.ssp &= !1; },
                _ => { for e in ext.iter_mut() { *e &= !0x0101; } },
            }
            place(p, &c, &ext);
        }
    }
    // The extreme dividends and divisors.
    if let (Some(Ins::Div { dn, ea, .. }), true) = (ins, rng.chance(1, 8)) {
        c.d[dn as usize] = rng.pick(&[0x8000_0000, 0x8000_0000, 0x7FFF_FFFF, 0xFFFF_FFFF, 0x8000_0001, 0, 0x8000, 0xFFFF_8000]);
        let by = rng.pick(&[0xFFFFu16, 0xFFFF, 1, 0x8000, 0x7FFF, 0xFFFE]);
        match ea {
            Ea::D(r) if r != dn => c.d[r as usize] = c.d[r as usize] & 0xFFFF_0000 | by as u32,
            Ea::Imm => ext[0] = by,
            _ => { place(p, &c, &ext); p.peek(log); if let Some(e) = log.iter().rev().find(|e| !e.write && e.size == 2) { if e.addr.wrapping_sub(c.pc) >= 16 { p.poke16(e.addr, by); } } },
        }
        place(p, &c, &ext);
        return;
    }
    // Boundaries of divisions and checks.
    if let Some(Ins::Div { signed, dn, ea }) = ins {
        p.peek(log);
        if let (Some(v), true) = (p.m.r.src, ea != Ea::D(dn) && rng.chance(3, 4)) {
            if v != 0 {
                let q: i64 = rng.pick(&[-65536, -32770, -32769, -32768, -32767, -2, -1, 0, 1, 2, 32766, 32767, 32768, 65534, 65535, 65536, 65537]);
                let n = if signed {
                    let m = v as i16 as i64;
                    let r = rng.below(m.unsigned_abs()) as i64;
                    let base = q * m;
                    if base < 0 || base == 0 && rng.bool() { base - r } else { base + r }
                } else { q.abs() * v as i64 + rng.below(v as u64) as i64 };
                if (signed && n >= i32::MIN as i64 && n <= i32::MAX as i64) || (!signed && n >= 0 && n <= u32::MAX as i64) { c.d[dn as usize] = n as u32; }
                place(p, &c, &ext);
            }
        }
    }
    if let Some(Ins::Chk { dn, ea }) = ins {
        p.peek(log);
        if let (Some(v), true) = (p.m.r.src, ea != Ea::D(dn) && rng.chance(3, 4)) {
            let x = (v as u16).wrapping_add(rng.pick(&[0u16, 1, 2, 0xFFFF, 0x8000]));
            c.d[dn as usize] = c.d[dn as usize] & !0xFFFF | x as u32;
            place(p, &c, &ext);
        }
    }
}

pub fn describe(p_name: &str, pre: &Core, op: u16, ext: &[u16], via: Via, d: &Diff) -> String {
    let mut s = format!("{p_name} {:?} opcode {op:04X} ({}) ext", via, op_name(op));
    for e in ext { s += &format!(" {e:04X}"); }
    s += &format!(": {}; before: D", d.msg);
    for x in pre.d { s += &format!(" {x:08X}"); }
    s += " A";
    for x in pre.a { s += &format!(" {x:08X}"); }
    s += &format!(" USP {:08X} SSP {:08X} PC {:08X} SR {:04X}{}", pre.usp, pre.ssp, pre.pc, pre.sr, if pre.stop { " stopped" } else { "" });
    s
}

pub fn exts<K: Kind>(p: &Pair<K>) -> Vec<u16> {
    let n = p.m.r.ins.as_ref().map_or(0, ext_words);
    (0..n).map(|i| p.d.bus.peek16(p.m.r.at.wrapping_add(2 + 2 * i))).collect()
}

pub fn ccr_key(v: u16) -> u64 { (v & 0x1F) as u64 }

/// One property's view of the single-step workload.
#[derive(Clone, Copy)]
pub struct Spec { pub aspects: u32, pub sup: Option<bool>, pub trace: Option<bool>, pub aligned: bool, pub dis_pct: u64, pub split_pct: u64, pub extra: fn(&Core, &Core, &Option<Ins>, &Obs) -> Option<String> }

fn no_extra(_: &Core, _: &Core, _: &Option<Ins>, _: &Obs) -> Option<String> { None }

/// What the single-step monitors saw.
#[derive(Default)]
pub struct Tally { done: u64, raised: u64, faults: u64, rd: u64, wr: u64, priv_: u64 }
impl Tally {
    pub fn report(&self, ctx: &mut Ctx) {
        for (k, v) in [("instructions completed", self.done), ("instructions trapped", self.raised), ("privilege violations", self.priv_), ("faulting steps", self.faults), ("bus reads observed", self.rd), ("bus writes observed", self.wr)] { ctx.count(k, v); }
    }
}

/// One step of the prepared pair, judged by one property's view of it.
pub fn judge<K: Kind>(ctx: &mut Ctx, it: u64, p: &mut Pair<K>, via: Via, split: bool, op: u16, sp: &Spec, out: &mut Vec<Diff>, t: &mut Tally) {
    p.set_split(split);
    p.step(via, out);
    p.set_split(false);
    let r = &p.m.r;
    match r.vector { None | Some(9) => t.done += 1, Some(2 | 3) => t.faults += 1, Some(8) => t.priv_ += 1, _ => t.raised += 1 }
    for e in &p.d.bus.log { if e.write { t.wr += 1 } else { t.rd += 1 } }
    if matches!(r.vector, Some(2 | 3)) && sp.aspects & A_FAULT == 0 { out.retain(|d| d.aspect == A_ODD); }
    let (pre, post) = (p.pre, p.m.c);
    let mut chg = 0u64;
    for i in 0..8 { chg |= ((pre.d[i] != post.d[i]) as u64) << i; }
    for i in 0..7 { chg |= ((pre.a[i] != post.a[i]) as u64) << (8 + i); }
    ctx.eval(mix(op as u64 ^ (r.vector.map_or(0x1FF, |v| v as u64)) << 16 ^ ccr_key(post.sr) << 25 ^ ccr_key(pre.sr) << 30 ^ chg << 36 ^ K::ID << 60));
    if let Some(m) = (sp.extra)(&pre, &p.d.core(), &r.ins, &p.obs) { out.push(Diff { aspect: sp.aspects, msg: m }); }
    for d in out.iter() {
        if d.aspect & sp.aspects != 0 {
            let sig = format!("{}:{}", op_name(op), aspect_name(d.aspect & sp.aspects));
            let ex = exts(p);
            let msg = describe(K::NAME, &pre, op, &ex, via, d);
            ctx.violation(it, &sig, msg);
        }
    }
}

/// The opcodes of a sweep, flat and by instruction.
pub struct Ops { flat: Vec<u16>, kinds: Vec<Vec<u16>> }
impl Ops {
    fn new(f: impl Fn(u16, Option<Ins>) -> bool) -> Ops {
        let flat = all_ops(f);
        let mut by: std::collections::BTreeMap<(&'static str, u16), Vec<u16>> = Default::default();
        for o in &flat { by.entry((op_name(*o), 0)).or_default().push(*o); }
        Ops { flat, kinds: by.into_values().collect() }
    }
}

/// Every second case takes the next opcode; the others draw an instruction first and then one of its opcodes, so that
/// instructions with few opcodes see as many operands as the others.
pub fn run_ops<K: Kind>(ctx: &mut Ctx, unit: u64, lane: u64, lanes: u64, iters: Range<u64>, ops: &Ops, sp: &Spec) {
    let mut p = Pair::<K>::new(0);
    let mut out = Vec::new();
    let mut log = Vec::new();
    let g = Gen { sup: sp.sup, trace: sp.trace, aligned: sp.aligned, ..Default::default() };
    let mut t = Tally::default();
    for it in iters {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let op = if it & 1 == 0 { ops.flat[((it / 2 * lanes + lane) % ops.flat.len() as u64) as usize] } else {
            let k = &ops.kinds[rng.below(ops.kinds.len() as u64) as usize];
            k[rng.below(k.len() as u64) as usize]
        };
        let via = if rng.chance(sp.dis_pct, 100) { Via::DisExc } else { Via::Exc };
        setup(&mut p, &mut rng, op, &g, &mut log);
        let split = rng.chance(sp.split_pct, 100);
        judge(ctx, it, &mut p, via, split, op, sp, &mut out, &mut t);
        if it % 4099 == 7 { ctx.sample(|| format!("{} opcode {op:04X} {} -> vector {:?}, {} cycles, CCR {:02X}", K::NAME, op_name(op), p.m.r.vector, p.obs.cycles, p.d.core().sr & 0x1F)); }
    }
    t.report(ctx);
}

/// Every opcode word is recognised as what the manual assigns to it: the decoder's verdict, the decoded instruction, the
/// disassembly and the two interpreters agree with the opcode map.
fn decode_unit<K: Kind>(ctx: &mut Ctx, unit: u64, lane: u64, iters: Range<u64>, reps: u64) {
    let mut p = Pair::<K>::new(0);
    let mut out = Vec::new();
    let mut log = Vec::new();
    let g = Gen::default();
    let (mut unknown, mut known, mut steps) = (0u64, 0u64, 0u64);
    for it in iters {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let op = (it * LANES + lane) as u16;
        let ins = decode(op);
        let name = op_name(op);
        let isa = format!("{:?}", m68000::isa::Isa::from(op));
        if isa != name { ctx.violation(it, &format!("{name}:isa"), format!("opcode {op:04X} is {name}, the decoder says {isa}")); }
        if let Some(i) = &ins {
            if m68000::isa::Isa::from(op).is_privileged() != i.privileged() { ctx.violation(it, &format!("{name}:privileged"), format!("opcode {op:04X} ({name}): privileged is {}", !i.privileged())); }
            known += 1;
        } else { unknown += 1; }
        let mut rng = ctx.rng(unit, it);
        let mut same = [0u32; 2];
        let mut tried = [0u32; 2];
        let mut last = [String::new(), String::new()];
        for rep in 0..reps {
            let v = (rep & 1) as usize;
            let via = if v == 0 { Via::Exc } else { Via::DisExc };
            setup(&mut p, &mut rng, op, &g, &mut log);
            p.step(via, &mut out);
            steps += 1;
            let pre = p.pre;
            let expect = match op >> 12 { 0xA => 10, 0xF => 11, _ => 4u8 };
            let mut bad = |sig: &str, m: String| { let ex = exts(&p); let msg = describe(K::NAME, &pre, op, &ex, via, &Diff { aspect: 0, msg: m }); ctx.violation(it, &format!("{name}:{sig}"), msg); };
            if p.obs.panicked.is_some() { bad("panic", format!("panicked: {:?}", p.obs.panicked)); continue; }
            if ins.is_none() || ins == Some(Ins::Illegal) {
                if p.obs.vector != Some(expect) { bad("trap", format!("word without an instruction reported {:?} instead of vector {expect}", p.obs.vector)); }
                let (mut a, b) = (p.d.core(), pre);
                a.pc = b.pc;
                if a != b || p.d.bus.log.iter().any(|e| e.write) || p.d.bus.log.len() != 1 { bad("side-effect", format!("illegal word had side effects:{} {:?}", a.diff(&b), p.d.bus.log)); }
            } else {
                if matches!(p.obs.vector, Some(4 | 10 | 11)) { bad("untrapped", format!("legal instruction reported vector {:?}", p.obs.vector)); }
                if !matches!(p.m.r.vector, Some(2 | 3)) {
                    tried[v] += 1;
                    if let Some(d) = out.iter().find(|d| d.aspect & (A_DATA | A_ADDR | A_SYS | A_PC | A_VEC | A_WRITE | A_WADDR) != 0) { last[v] = d.msg.clone(); } else { same[v] += 1; }
                }
            }
            ctx.eval(mix(op as u64 | (v as u64) << 16 | K::ID << 17 | (rep / 2) << 20));
        }
        for v in 0..2 {
            if tried[v] > 0 && same[v] == 0 { ctx.violation(it, &format!("{name}:executes"), format!("opcode {op:04X} ({name}) never executed like a {name} through {:?}, for example: {}", VIAS[v * 2], last[v])); }
        }
    }
    ctx.count("opcode words that are instructions", known);
    ctx.count("opcode words that are not", unknown);
    ctx.count("steps", steps);
}

/// The same state and memory on a processor description that differs in timing only: everything but the cycles is equal.
fn timing_is_only_timing<A: Kind, B: Kind>(ctx: &mut Ctx, unit: u64, lane: u64, iters: Range<u64>) {
    let mut p = Pair::<A>::new(0);
    let mut q = Dut::<B>::new(Bus::new(0));
    let mut log = Vec::new();
    let g = Gen { aligned: false, ..Default::default() };
    for it in iters {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let op = (it * LANES + lane) as u16;
        let mut rng = ctx.rng(unit, it);
        setup(&mut p, &mut rng, op, &g, &mut log);
        let c = p.m.c;
        q.bus = p.d.bus.clone();
        q.cpu = m68000::M68000::new_no_reset();
        if p.m.op != 0xFFFF { q.executed_before(p.m.op); }
        q.set_core(&c);
        // Every second case enters an exception first.
        if rng.bool() { let v = rng.range(2, 255) as u8; p.d.request(v); q.request(v); }
        let via = rng.pick(&[Via::Exc, Via::DisExc]);
        let (a, b) = (p.d.step(via), q.step(via));
        let (ca, cb) = (p.d.core(), q.core());
        if a.panicked.is_some() && b.panicked.is_some() { continue; }
        if a.vector != b.vector || ca != cb || p.d.bus.log != q.bus.log || p.d.bus.same_content(&q.bus).is_some() || a.text != b.text || a.panicked != b.panicked {
            ctx.violation(it, &format!("{}:timing-changes-result", op_name(op)), format!("opcode {op:04X} ({}) gives vector {:?} on {} and {:?} on {};{}", op_name(op), a.vector, A::NAME, b.vector, B::NAME, ca.diff(&cb)));
        }
        ctx.eval(mix(op as u64 | (a.vector.map_or(0x1FF, |v| v as u64)) << 16 | A::ID << 30 | ccr_key(ca.sr) << 40));
    }
}

const LANES: u64 = 32;

/// Every opcode of a set, from `reps` states each, on both built-in processors.
pub fn sweep(name: &'static str, f: fn(u16, Option<Ins>) -> bool, total: u64, sp: Spec) -> Work {
    let ops: OnceLock<Ops> = OnceLock::new();
    let per = total / (2 * LANES) + 1;
    work(name, 2 * LANES, per, move |ctx, unit, it| {
        let ops = ops.get_or_init(|| Ops::new(f));
        if unit < LANES { run_ops::<Mc68000>(ctx, unit, unit, LANES, it, ops, &sp) } else { run_ops::<Scc68070>(ctx, unit, unit - LANES, LANES, it, ops, &sp) }
    })
}
pub fn sweep_tags(name: &'static str, f: fn(u16, Option<Ins>) -> bool, total: u64, sp: Spec) -> Work {
    let ops: OnceLock<Ops> = OnceLock::new();
    let per = total / (2 * LANES) + 1;
    work(name, 2 * LANES, per, move |ctx, unit, it| {
        let ops = ops.get_or_init(|| Ops::new(f));
        if unit < LANES { run_ops::<TagA>(ctx, unit, unit, LANES, it, ops, &sp) } else { run_ops::<TagB>(ctx, unit, unit - LANES, LANES, it, ops, &sp) }
    })
}

pub const BASE: Spec = Spec { aspects: A_STATE | A_PANIC, sup: None, trace: None, aligned: true, dis_pct: 20, split_pct: 10, extra: no_extra };

/// User mode may not change system state, whatever the instruction is.
fn user_rules(pre: &Core, post: &Core, ins: &Option<Ins>, obs: &Obs) -> Option<String> {
    if pre.sup() || obs.panicked.is_some() { return None; }
    if (pre.sr ^ post.sr) & 0xFFE0 != 0 { return Some(format!("user-mode instruction changed the system byte from {:04X} to {:04X}", pre.sr, post.sr)); }
    if pre.ssp != post.ssp { return Some(format!("user-mode instruction changed the supervisor stack pointer from {:08X} to {:08X}", pre.ssp, post.ssp)); }
    if post.stop { return Some("user-mode instruction stopped the processor".into()); }
    if ins.as_ref().map_or(false, |i| i.privileged()) {
        if obs.vector != Some(8) { return Some(format!("privileged instruction in user mode reported {:?}", obs.vector)); }
        if pre.d != post.d || pre.a != post.a || pre.usp != post.usp || pre.sr != post.sr { return Some(format!("privilege violation changed{}", post.diff(pre))); }
    }
    None
}

fn is(n: u32) -> fn(u16, Option<Ins>) -> bool {
    fn f<const N: u32>(_: u16, i: Option<Ins>) -> bool { i.map_or(false, |i| class(&i) == N) }
    match n { 1 => f::<1>, 2 => f::<2>, 3 => f::<3>, 4 => f::<4>, 5 => f::<5>, 6 => f::<6>, 7 => f::<7>, _ => f::<10> }
}
pub fn any(_: u16, _: Option<Ins>) -> bool { true }

pub fn opts(prop: &'static str, rule: &'static str, min: u64) -> Options {
    Options { prop, level: "exploration", rule, min_distinct: min, assumptions: vec!["the reference machine in mon/src/model.rs and the opcode map in mon/src/isa68k.rs state the MC68000 programmer's manual", "rustc and the host behave as specified"] }
}
const RULE: &str = "distinct (opcode, raised vector, condition codes before and after, set of registers changed, processor type); steps ending in a bus or address fault are not counted";

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let n = |q: u64| if thorough { q * 25 } else { q };
    let gr = |k: u32, both: bool, sp: Spec| grids::<Mc68000, Scc68070>(k, thorough, both, sp);
    Some(match p {
        "C01" => (opts("C01", RULE, 100_000), vec![sweep("data-movement", is(1), n(3_000_000), BASE), gr(1, false, BASE)]),
        "C02" => (opts("C02", RULE, 100_000), vec![sweep("add-sub-compare", is(2), n(3_000_000), BASE), gr(2, false, BASE)]),
        "C03" => (opts("C03", RULE, 10_000), vec![sweep("multiply-divide-check", is(3), n(2_000_000), BASE), gr(3, false, BASE)]),
        "C04" => (opts("C04", RULE, 50_000), vec![sweep("logic-bits", is(4), n(3_000_000), BASE), gr(4, false, BASE)]),
        "C05" => (opts("C05", RULE, 10_000), vec![sweep("shifts", is(5), n(2_500_000), BASE), gr(5, false, BASE)]),
        "C06" => (opts("C06", RULE, 2_000), vec![sweep("bcd", is(6), n(1_500_000), BASE), gr(6, false, BASE)]),
        "C07" => (opts("C07", RULE, 10_000), vec![sweep("control-flow", is(7), n(2_500_000), BASE), gr(7, false, BASE)]),
        "C08" => (opts("C08", RULE, 100_000), vec![sweep("addressing", |_, i| i.map_or(false, |i| has_ea(&i)), n(3_000_000), Spec { aspects: A_ADDR | A_READ | A_WADDR | A_PANIC, ..BASE }), gr(8, false, Spec { aspects: A_ADDR | A_READ | A_WADDR | A_PC | A_PANIC, ..BASE })]),
        "C09" => (opts("C09", RULE, 50_000), vec![
            sweep("user-mode-any-opcode", any, n(2_500_000), Spec { aspects: A_SYS, sup: Some(false), aligned: false, extra: user_rules, ..BASE }),
            sweep("user-mode-system-opcodes", |_, i| i.map_or(false, |i| i.privileged() || class(&i) == 10 || matches!(i, Ins::Rtr)), n(500_000), Spec { aspects: A_SYS | A_DATA | A_ADDR | A_CCR | A_WRITE | A_WADDR | A_VEC, sup: Some(false), extra: user_rules, ..BASE }),
            histories("user-programs", 32, n(60), Cfg { aspects: A_SYS | A_VEC, req: 60, user: Some(true), trace: 10, ..CFG }),
            gr(9, false, Spec { aspects: A_SYS | A_DATA | A_ADDR | A_CCR | A_WRITE | A_WADDR | A_VEC, sup: Some(false), extra: user_rules, ..BASE }),
        ]),
        "C10" => (opts("C10", RULE, 20_000), vec![sweep("status-register", is(10), n(2_500_000), BASE), gr(10, false, BASE)]),
        "C16" => {
            let reps = if thorough { 4000 } else { 120 };
            let mut o = opts("C16", "distinct (opcode word, stepping function, processor type, state index); all 65536 words are enumerated", 700_000);
            o.level = "exploration";
            (o, vec![work("all-opcode-words", 2 * LANES, 65536 / LANES, move |ctx, unit, it| if unit < LANES { decode_unit::<Mc68000>(ctx, unit, unit, it, reps) } else { decode_unit::<Scc68070>(ctx, unit, unit - LANES, it, reps) })])
        },
        "C17" => (opts("C17", RULE, 300_000), vec![
            sweep("bus-log", any, n(3_000_000), Spec { aspects: A_READ | A_WADDR | A_ODD, aligned: true, split_pct: 30, ..BASE }),
            sweep("bus-log-unaligned", any, n(1_000_000), Spec { aspects: A_READ | A_WADDR | A_ODD, aligned: false, split_pct: 30, ..BASE }),
            sweep("bus-values", |_, i| i.map_or(false, |i| matches!(i, Ins::Move { .. } | Ins::Movem { .. } | Ins::Movep { .. } | Ins::Pea(_) | Ins::Link(_) | Ins::Bsr(_) | Ins::Jsr(_))), n(1_000_000), Spec { aspects: A_READ | A_WADDR | A_ODD | A_WRITE, split_pct: 50, ..BASE }),
            histories("bus-log-of-programs", 32, n(60), Cfg { aspects: A_READ | A_WADDR | A_ODD, req: 40, ..CFG }),
            gr(17, false, Spec { aspects: A_READ | A_WADDR | A_ODD | A_WRITE, split_pct: 30, ..BASE }),
        ]),
        "C21" => (opts("C21", RULE, 300_000), vec![
            sweep("cycles", any, n(4_000_000), Spec { aspects: A_CYC, ..BASE }),
            histories("cycles-in-programs", 32, n(100), Cfg { aspects: A_CYC, req: 60, ints: true, trace: 20, stops: 40, holes: true, ..CFG }),
            gr(21, true, Spec { aspects: A_CYC, ..BASE }),
            sweep("cycles-shifts-movem", |_, i| i.map_or(false, |i| matches!(i, Ins::ShReg { .. } | Ins::Movem { .. } | Ins::Scc { .. } | Ins::Bcc { .. } | Ins::Dbcc { .. } | Ins::Rte)), n(1_000_000), Spec { aspects: A_CYC, ..BASE }),
        ]),
        "C32" => (opts("C32", RULE, 300_000), vec![
            sweep_tags("tagged-cycles", any, n(4_000_000), Spec { aspects: A_CYC, ..BASE }),
            histories("cycles-in-programs", 32, n(60), Cfg { aspects: A_CYC, req: 80, trace: 30, stops: 40, holes: true, ..CFG }),
            grids::<TagA, TagB>(32, thorough, true, Spec { aspects: A_CYC, ..BASE }),
            work("timing-only", 2 * LANES, n(2) * 65536 / LANES, |ctx, unit, it| if unit < LANES { timing_is_only_timing::<Mc68000, TagA>(ctx, unit, unit, it) } else { timing_is_only_timing::<Scc68070, TagB>(ctx, unit, unit - LANES, it) }),
        ]),
        _ => return None,
    })
}
