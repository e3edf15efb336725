//! Complete operand grids: the operands that are small enough are all tried, in lockstep with the reference machine, from
//! machine states that are random otherwise.
use crate::bus::*;
use crate::lockstep::*;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::single::*;
use std::ops::Range;

/// One point of a grid: the state is random, the grid fixes what matters.
pub struct Point<'a> { pub rng: &'a mut Rng, pub c: &'a mut Core, pub ext: [u16; 3], pub top: Vec<u16>, pub mem: Option<(usize, u16)>, pub sup: Option<bool> }
impl Point<'_> {
    fn reg(&mut self) -> u16 { self.rng.below(8) as u16 }
    fn two(&mut self) -> (u16, u16) { let m = self.reg(); let n = (m + 1 + self.rng.below(7) as u16) & 7; (m, n) }
    fn byte(&mut self, r: u16, v: u64) { let d = &mut self.c.d[r as usize]; *d = *d & !0xFF | (v & 0xFF) as u32; }
    fn word(&mut self, r: u16, v: u64) { let d = &mut self.c.d[r as usize]; *d = *d & !0xFFFF | (v & 0xFFFF) as u32; }
    fn x(&mut self, v: u64) { self.c.sr = self.c.sr & !0x10 | (v as u16 & 1) << 4; }
    fn ccr(&mut self, v: u64) { self.c.sr = self.c.sr & !0x1F | v as u16 & 0x1F; }
    /// The word at (A0), as a whole or its upper byte.
    fn at(&mut self, v: u16) { self.mem = Some((0, v)); }
}
/// Name, properties it decides, points, and the instruction of a point.
pub type Grid = (&'static str, &'static [u32], u64, fn(u64, &mut Point) -> u16);

const EDGE: [u64; 8] = [0, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF, 0x00FF, 0xFF80];
const COUNTS: [u64; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 17, 31, 32, 33, 63];

fn byte2(op: u16, i: u64, p: &mut Point) -> u16 { let (m, n) = p.two(); p.byte(m, i); p.byte(n, i >> 8); p.x(i >> 16); op | n << 9 | m }
fn word_edge(op: u16, i: u64, p: &mut Point) -> u16 { let (m, n) = p.two(); let e = EDGE[(i >> 16 & 7) as usize]; let (a, b) = if i >> 19 & 1 == 0 { (i, e) } else { (e, i) }; p.word(m, a); p.word(n, b); op | n << 9 | m }
fn addr_edge(op: u16, i: u64, p: &mut Point) -> u16 { let (m, n) = p.two(); let n = n % 7; p.word(m, i); let e = EDGE[(i >> 16 & 7) as usize] as u32; if p.rng.bool() { p.c.a[n as usize] = (e as u16 as i16 as i32 as u32) & !1; } op | n << 9 | m }
fn un_byte(op: u16, i: u64, p: &mut Point) -> u16 { let m = p.reg(); p.byte(m, i); p.x(i >> 8); op | m }
fn un_word(op: u16, i: u64, p: &mut Point) -> u16 { let m = p.reg(); p.word(m, i); p.x(i >> 16); op | m }
fn imm_word(op: u16, i: u64, p: &mut Point) -> u16 { p.ext[0] = i as u16; op }
fn shift(i: u64, p: &mut Point, size: u16) -> u16 {
    let (c, d) = p.two();
    let (kind, left) = ((i & 3) as u16, (i >> 2 & 1) as u16);
    p.x(i >> 3);
    let j = i >> 4;
    let cnt = if size == 0 { p.byte(d, j); j >> 8 } else { p.word(d, j); COUNTS[(j >> 16) as usize] };
    let dc = &mut p.c.d[c as usize];
    *dc = *dc & !0x3F | cnt as u32;
    0xE020 | c << 9 | left << 8 | size << 6 | kind << 3 | d
}

pub const GRIDS: &[Grid] = &[
    ("MOVEQ", &[1], 8 * 256, |i, _| 0x7000 | ((i >> 8) as u16) << 9 | (i & 0xFF) as u16),
    ("MOVE.B Dm,Dn", &[1], 256, |i, p| { let (m, n) = p.two(); p.byte(m, i); 0x1000 | n << 9 | m }),
    ("MOVE.W Dm,Dn", &[1], 0x10000, |i, p| { let (m, n) = p.two(); p.word(m, i); 0x3000 | n << 9 | m }),
    ("MOVE.W #,Dn", &[1], 0x10000, |i, p| { let n = p.reg(); imm_word(0x303C | n << 9, i, p) }),
    ("MOVEA.W Dm,An", &[1], 0x10000, |i, p| { let (m, n) = p.two(); p.word(m, i); 0x3040 | n << 9 | m }),
    ("SWAP", &[1], 0x20000, |i, p| { let m = p.reg(); let v = i as u32 & 0xFFFF; p.c.d[m as usize] = if i >> 16 == 0 { v } else { v << 16 }; 0x4840 | m }),
    ("LINK", &[1, 17], 0x10000, |i, p| { let m = p.reg(); imm_word(0x4E50 | m, i, p) }),
    ("MOVEM lists", &[1, 17, 21, 32], 8 * 0x10000, |i, p| {
        p.ext[0] = i as u16;
        let r = p.reg() & 3;
        (match i >> 16 & 3 { 0 => 0x48A0 | r, 1 => 0x4890 | r, 2 => 0x4C98 | r, _ => 0x4CA8 | r }) | ((i >> 18 & 1) as u16) << 6
    }),
    ("MOVEP displacements", &[1, 17], 4 * 0x10000, |i, p| { let (m, n) = p.two(); imm_word(0x0108 | ((i >> 16) as u16) << 6 | n << 9 | m & 3, i, p) }),
    ("ADD.B", &[2], 0x10000, |i, p| byte2(0xD000, i, p)),
    ("SUB.B", &[2], 0x10000, |i, p| byte2(0x9000, i, p)),
    ("CMP.B", &[2], 0x10000, |i, p| byte2(0xB000, i, p)),
    ("ADDX.B", &[2], 0x20000, |i, p| byte2(0xD100, i, p)),
    ("SUBX.B", &[2], 0x20000, |i, p| byte2(0x9100, i, p)),
    ("ADD.W", &[2], 0x100000, |i, p| word_edge(0xD040, i, p)),
    ("SUB.W", &[2], 0x100000, |i, p| word_edge(0x9040, i, p)),
    ("CMP.W", &[2], 0x100000, |i, p| word_edge(0xB040, i, p)),
    ("ADDX.W", &[2], 0x100000, |i, p| word_edge(0xD140, i, p)),
    ("SUBX.W", &[2], 0x100000, |i, p| word_edge(0x9140, i, p)),
    ("ADDA.W", &[2], 0x80000, |i, p| addr_edge(0xD0C0, i, p)),
    ("SUBA.W", &[2], 0x80000, |i, p| addr_edge(0x90C0, i, p)),
    ("CMPA.W", &[2], 0x80000, |i, p| addr_edge(0xB0C0, i, p)),
    ("ADDI.W/SUBI.W/CMPI.W", &[2], 3 * 0x10000, |i, p| { let m = p.reg(); imm_word([0x0640, 0x0440, 0x0C40][(i >> 16) as usize] | m, i, p) }),
    ("ADDI.B/SUBI.B/CMPI.B", &[2], 3 * 0x10000, |i, p| { let m = p.reg(); p.byte(m, i >> 8); let hi = p.rng.u16() & 0xFF00; imm_word([0x0600, 0x0400, 0x0C00][(i >> 16) as usize] | m, hi as u64 | i & 0xFF, p) }),
    ("ADDQ/SUBQ.B", &[2], 16 * 256, |i, p| { let m = p.reg(); p.byte(m, i); 0x5000 | (i >> 8 & 15) as u16 * 0x100 | m }),
    ("ADDQ/SUBQ.W", &[2], 16 * 0x10000, |i, p| { let m = p.reg(); p.word(m, i); 0x5040 | (i >> 16 & 15) as u16 * 0x100 | m }),
    ("NEG/NEGX/CLR/TST.B", &[2], 4 * 512, |i, p| un_byte([0x4400, 0x4000, 0x4200, 0x4A00][(i >> 9) as usize], i & 0x1FF, p)),
    ("NEG/NEGX/CLR/TST.W", &[2], 4 * 0x20000, |i, p| un_word([0x4440, 0x4040, 0x4240, 0x4A40][(i >> 17) as usize], i & 0x1FFFF, p)),
    ("EXT", &[2], 0x20000, |i, p| un_word(if i >> 16 == 0 { 0x4880 } else { 0x48C0 }, i & 0xFFFF, p)),
    ("MULU/MULS", &[3], 0x200000, |i, p| word_edge(if i >> 20 == 0 { 0xC0C0 } else { 0xC1C0 }, i & 0xFFFFF, p)),
    ("DIVU/DIVS by every divisor", &[3], 8 * 0x10000, |i, p| {
        let (m, n) = p.two();
        p.word(m, i);
        let by = i as u32 & 0xFFFF;
        let s = i >> 16 & 1 == 1;
        let q = match i >> 17 & 3 { 0 => None, 1 => Some(0x7FFFu32), 2 => Some(0xFFFF), _ => Some(0x8000) };
        if let Some(q) = q {
            let r = if by == 0 { 0 } else { p.rng.below(by.min(3) as u64) as u32 };
            let b = if s { (by as u16 as i16).unsigned_abs() as u32 } else { by };
            let v = q.wrapping_mul(b).wrapping_add(r.min(b.saturating_sub(1)));
            p.c.d[n as usize] = if s && p.rng.bool() { v.wrapping_neg() } else { v };
        }
        (if s { 0x81C0 } else { 0x80C0 }) | n << 9 | m
    }),
    ("CHK bounds and values", &[3], 0x100000, |i, p| word_edge(0x4180, i, p)),
    ("AND.B/OR.B/EOR.B", &[4], 3 * 0x10000, |i, p| { let (m, n) = p.two(); p.byte(m, i); p.byte(n, i >> 8); [0xC000, 0x8000, 0xB100][(i >> 16) as usize] | n << 9 | m }),
    ("ANDI/ORI/EORI.W", &[4], 3 * 0x10000, |i, p| { let m = p.reg(); imm_word([0x0240, 0x0040, 0x0A40][(i >> 16) as usize] | m, i, p) }),
    ("NOT.B/TAS", &[4], 4 * 256, |i, p| if i >> 9 & 1 == 0 { let o = if i >> 8 & 1 == 0 { 0x4600 } else { 0x4AC0 }; un_byte(o, i & 0xFF, p) } else { p.at((i << 8) as u16 | 0x5A); if i >> 8 & 1 == 0 { 0x4610 } else { 0x4AD0 } }),
    ("NOT.W", &[4], 0x10000, |i, p| un_word(0x4640, i, p)),
    ("Scc by every condition code", &[4, 21], 2 * 16 * 32, |i, p| { p.ccr(i); 0x50C0 | (i >> 5 & 15) as u16 * 0x100 | if i >> 9 == 0 { p.reg() } else { 0x10 } }),
    ("bits of a register, dynamic", &[4], 4 * 256, |i, p| { let (m, n) = p.two(); p.byte(m, i); 0x0100 | m << 9 | ((i >> 8) as u16) << 6 | n }),
    ("bits of a register, static", &[4], 4 * 0x10000, |i, p| { let n = p.reg(); imm_word(0x0800 | ((i >> 16) as u16) << 6 | n, i, p) }),
    ("bits of a byte, dynamic", &[4], 4 * 256 * 32, |i, p| { let m = p.reg(); let v = i >> 8 & 31 | p.rng.u64() & 0xE0; p.byte(m, v); p.at((i << 8) as u16 | 0x5A); 0x0110 | m << 9 | ((i >> 13) as u16) << 6 }),
    ("bits of a byte, static", &[4], 4 * 256 * 8, |i, p| { let hi = p.rng.u64() & 0xF8; p.at((i << 8) as u16 | 0xA5); imm_word(0x0810 | ((i >> 11) as u16) << 6, i >> 8 & 7 | hi, p) }),
    ("register shifts of a byte", &[5, 21], 16 * 256 * 64, |i, p| shift(i, p, 0)),
    ("register shifts of a word", &[5], 16 * 0x10000 * 20, |i, p| shift(i, p, 1)),
    ("register shifts of one long bit", &[5, 21], 16 * 64 * 64, |i, p| {
        let (c, d) = p.two();
        let b = 1u32 << (i >> 4 & 31);
        p.c.d[d as usize] = if i >> 9 & 1 == 0 { b } else { !b };
        p.x(i >> 3);
        let dc = &mut p.c.d[c as usize];
        *dc = *dc & !0x3F | (i >> 10) as u32;
        0xE0A0 | c << 9 | ((i >> 2 & 1) as u16) << 8 | ((i & 3) as u16) << 3 | d
    }),
    ("immediate shifts of a byte", &[5, 21], 16 * 256 * 8, |i, p| { let d = p.reg(); p.x(i >> 3); p.byte(d, i >> 4); 0xE000 | ((i >> 12) as u16) << 9 | ((i >> 2 & 1) as u16) << 8 | ((i & 3) as u16) << 3 | d }),
    ("immediate shifts of a word", &[5], 16 * 0x10000 * 8, |i, p| { let d = p.reg(); p.x(i >> 3); p.word(d, i >> 4); 0xE040 | ((i >> 20) as u16) << 9 | ((i >> 2 & 1) as u16) << 8 | ((i & 3) as u16) << 3 | d }),
    ("memory shifts", &[5], 16 * 0x10000, |i, p| { p.x(i >> 3); p.at((i >> 4) as u16); 0xE0D0 | ((i & 7) as u16) << 8 }),
    ("ABCD/SBCD", &[6], 8 * 0x10000, |i, p| { let (m, n) = p.two(); p.byte(m, i); p.byte(n, i >> 8); p.x(i >> 16); p.c.sr = p.c.sr & !4 | ((i >> 17 & 1) as u16) << 2; (if i >> 18 == 0 { 0xC100 } else { 0x8100 }) | n << 9 | m }),
    ("NBCD", &[6], 8 * 256, |i, p| { let m = p.reg(); p.byte(m, i); p.x(i >> 8); p.c.sr = p.c.sr & !4 | ((i >> 9 & 1) as u16) << 2; if i >> 10 == 0 { 0x4800 | m } else { p.at((i << 8) as u16 | 0x33); 0x4810 } }),
    ("short branches by every condition code", &[7], 16 * 256 * 32, |i, p| { p.ccr(i); 0x6000 | (i >> 5) as u16 }),
    ("word branches", &[7], 4 * 0x10000, |i, p| { p.ccr(i >> 3); imm_word([0x6000, 0x6100, 0x6600, 0x6700][(i >> 16) as usize], i, p) }),
    ("DBcc counters", &[7], 4 * 0x10000, |i, p| { let m = p.reg(); p.word(m, i); let cc = match i >> 16 { 0 => 1, 1 => 0, _ => p.rng.below(16) as u16 }; 0x50C8 | cc << 8 | m }),
    ("DBcc by every condition code", &[7, 21], 16 * 32 * 4, |i, p| { p.ccr(i); let m = p.reg(); let n = [0, 1, 0xFFFF, 0x8000][(i >> 9) as usize]; p.word(m, n); 0x50C8 | (i >> 5 & 15) as u16 * 0x100 | m }),
    ("DBcc displacements", &[7], 0x10000, |i, p| { let m = p.reg(); imm_word(0x51C8 | m, i, p) }),
    ("RTR words", &[7, 10], 0x10000, |i, p| { p.top = vec![i as u16]; 0x4E77 }),
    ("TRAP/TRAPV", &[7], 17 * 32, |i, p| { p.ccr(i); if i >> 5 == 16 { 0x4E76 } else { 0x4E40 | (i >> 5) as u16 } }),
    ("brief extension words", &[8], 2 * 0x10000, |i, p| { let n = p.reg(); let b = p.reg(); imm_word((if i >> 16 == 0 { 0x41F0 | b } else { 0x41FB }) | n << 9, i, p) }),
    ("16-bit displacements and addresses", &[8], 3 * 0x10000, |i, p| { let n = p.reg(); let b = p.reg(); imm_word([0x41E8 | b, 0x41FA, 0x41F8][(i >> 16) as usize] | n << 9, i, p) }),
    ("jumps through brief extension words", &[8], 4 * 0x10000, |i, p| { let b = p.reg(); imm_word([0x4EF0 | b, 0x4EFB, 0x4EB0 | b, 0x4870 | b][(i >> 16) as usize], i, p) }),
    ("loads through brief extension words", &[8, 17], 2 * 0x10000, |i, p| { let n = p.reg(); let b = p.reg(); imm_word((if i >> 16 == 0 { 0x1030 | b } else { 0x103B }) | n << 9, i, p) }),
    ("ANDI/ORI/EORI to SR", &[10, 9], 3 * 0x10000, |i, p| imm_word([0x027C, 0x007C, 0x0A7C][(i >> 16) as usize], i, p)),
    ("ANDI/ORI/EORI to CCR", &[10, 9], 3 * 0x10000, |i, p| imm_word([0x023C, 0x003C, 0x0A3C][(i >> 16) as usize], i, p)),
    ("MOVE to SR/CCR", &[10, 9], 4 * 0x10000, |i, p| if i >> 17 == 0 { let m = p.reg(); p.word(m, i); (if i >> 16 == 0 { 0x46C0 } else { 0x44C0 }) | m } else { imm_word(if i >> 16 & 1 == 0 { 0x46FC } else { 0x44FC }, i, p) }),
    ("MOVE from SR", &[10], 2048, |i, p| { let v = i as u16; p.c.sr = v & 0x1F | (v >> 5 & 7) << 8 | (v >> 8 & 1) << 13 | (v >> 9 & 1) << 15; if v >> 10 & 1 == 0 { 0x40C0 | p.reg() } else { 0x40D0 } }),
    ("STOP words", &[10, 9], 0x10000, |i, p| imm_word(0x4E72, i, p)),
    ("RTE status words", &[13, 9], 0x10000, |i, p| { let v = p.rng.u16() & 0x3FC; p.top = vec![i as u16, 0, 0x1000, v]; 0x4E73 }),
    ("RTE format words", &[13], 0x10000, |i, p| { p.top = vec![0x2000 | p.rng.u16() & 0xA71F, 0, 0x1000, i as u16]; p.sup = Some(true); 0x4E73 }),
    ("RTR words in user mode", &[9], 0x10000, |i, p| { p.top = vec![i as u16]; p.sup = Some(false); 0x4E77 }),
];

const LANES: u64 = 64;

fn unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>, gs: &[Grid], sp: &Spec, half: Option<u64>) {
    let mut p = Pair::<K>::new(0);
    let mut out = Vec::new();
    let mut t = Tally::default();
    let mut points = 0u64;
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut i = it * LANES + unit % LANES;
        let total: u64 = gs.iter().map(|g| g.2).sum();
        let round = i / total;
        i %= total;
        // Each processor type takes every second point, and the other ones in the next round.
        if let Some(h) = half { if (mix(i) ^ round) & 1 != h { continue; } }
        let mut g = &gs[0];
        for x in gs { g = x; if i < x.2 { break; } i -= x.2; }
        let mut rng = ctx.rng(unit, it);
        p.reset_to(rng.u64());
        let mut c = gen_core(&mut rng, sp.sup, 0);
        if g.1.contains(&10) && sp.sup.is_none() && rng.chance(7, 8) { c.sr |= S; }
        let (ext, top, mem, sup, op);
        {
            let mut pt = Point { rng: &mut rng, c: &mut c, ext: [0; 3], top: Vec::new(), mem: None, sup: None };
            for e in pt.ext.iter_mut() { *e = gen_ext(pt.rng); }
            op = g.3(i, &mut pt);
            (ext, top, mem, sup) = (pt.ext, pt.top, pt.mem, pt.sup);
        }
        if let Some(s) = sup { c.sr = c.sr & !S | if s { S } else { 0 }; }
        let at = if c.sr & S != 0 { c.ssp } else { c.usp };
        for (k, w) in top.iter().enumerate() { p.poke16(at.wrapping_add(2 * k as u32), *w); }
        if let Some((r, w)) = mem { p.poke16(c.a[r], w); }
        p.poke16(c.pc, op);
        for (k, w) in ext.iter().enumerate() { p.poke16(c.pc.wrapping_add(2 + 2 * k as u32), *w); }
        p.set_core(&c);
        let via = if rng.chance(sp.dis_pct, 100) { Via::DisExc } else { Via::Exc };
        let split = rng.chance(sp.split_pct, 100);
        judge(ctx, it, &mut p, via, split, op, sp, &mut out, &mut t);
        points += 1;
        if it % 40_009 == 7 { ctx.sample(|| format!("{} {} point {i:X} (round {round}): opcode {op:04X} -> vector {:?}, CCR {:02X}", K::NAME, g.0, p.m.r.vector, p.d.core().sr & 0x1F)); }
    }
    ctx.count("grid points", points);
    t.report(ctx);
}

/// Every point of the property's grids (eleven times when thorough), on one of the two processor types or on both.
pub fn grids<A: Kind, B: Kind>(prop: u32, thorough: bool, both: bool, sp: Spec) -> Work {
    let gs: Vec<Grid> = GRIDS.iter().filter(|g| g.1.contains(&prop)).copied().collect();
    let total: u64 = gs.iter().map(|g| g.2).sum();
    let rounds = if thorough { 11 } else { 1 };
    exact_work("operand-grids", 2 * LANES, (total * rounds).div_ceil(LANES), move |ctx, u, its| {
        let half = |h| if both { None } else { Some(h) };
        if u < LANES { unit::<A>(ctx, u, its, &gs, &sp, half(0)) } else { unit::<B>(ctx, u, its, &gs, &sp, half(1)) }
    })
}
