//! Whole algorithms: guest programs, written with the crate's assembler, whose results are known from mathematics. The
//! oracle is arithmetic on Rust integers and byte arrays; no reference machine is involved.
use crate::bus::*;
use crate::kinds;
use crate::lockstep::*;
use crate::model::*;
use crate::prog::{drive, Drive};
use crate::rng::*;
use crate::runner::*;
use crate::single::opts;
use m68000::addressing_modes::AddressingMode::*;
use m68000::addressing_modes::{AddressingMode as Am, BriefExtensionWord as Bew};
use m68000::assembler as a;
use m68000::assembler::Condition as Cc;
use m68000::instruction::Direction::*;
use m68000::instruction::Size::{self, *};
use std::ops::Range;

/// A program under construction. `d` and `r` name the data and address registers, which are assigned at random.
struct Job {
    name: &'static str,
    w: Vec<u16>,
    base: u32,
    d: [u8; 8],
    r: [u8; 7],
    c: Core,
    mem: Vec<(u32, Vec<u8>)>,
    want: Vec<(u32, Vec<u8>)>,
    /// Memory the program may use as it likes.
    free: Vec<(u32, u32)>,
    want_d: Vec<(u8, u32)>,
    want_a: Vec<(u8, u32)>,
    key: u64,
}
#[derive(Clone, Copy)]
struct Fix(usize);

impl Job {
    fn e(&mut self, w: impl AsRef<[u16]>) { self.w.extend_from_slice(w.as_ref()); }
    fn e1(&mut self, w: u16) { self.w.push(w); }
    fn here(&self) -> usize { self.w.len() }
    fn back(&self, to: usize) -> i16 { 2 * to as i16 - (2 * self.w.len() as i16 + 2) }
    fn bcc(&mut self, c: Cc, to: usize) { let x = self.back(to); self.e(a::bcc(c, x)); }
    fn bra(&mut self, to: usize) { let x = self.back(to); self.e(a::bra(x)); }
    fn bsr(&mut self, to: usize) { let x = self.back(to); self.e(a::bsr(x)); }
    fn db(&mut self, c: Cc, reg: u8, to: usize) { let x = self.back(to); self.e(a::dbcc(c, reg, x)); }
    fn dbra(&mut self, reg: u8, to: usize) { self.db(Cc::F, reg, to); }
    fn fwd(&mut self, w: Vec<u16>) -> Fix { assert!(w.len() == 2); self.e(w); Fix(self.w.len() - 1) }
    fn bcc_fwd(&mut self, c: Cc) -> Fix { self.fwd(a::bcc(c, 0x1000)) }
    fn bra_fwd(&mut self) -> Fix { self.fwd(a::bra(0x1000)) }
    fn bsr_fwd(&mut self) -> Fix { self.fwd(a::bsr(0x1000)) }
    fn here_is(&mut self, f: Fix) { self.w[f.0] = (2 * (self.w.len() - f.0)) as u16; }
    fn mv(&mut self, s: Size, dst: Am, src: Am) { self.e(a::r#move(s, dst, src)); }
    fn lea(&mut self, reg: u8, at: u32) { self.e(a::lea(reg, AbsLong(at))); }
    /// MOVE #ccr,CCR.
    fn ccr(&mut self, v: u16) { self.e(a::moveccr(Immediate(v as u32))); }
    /// Keeps the flags in a data register (only its low word changes).
    fn flags(&mut self, reg: u8) { self.e(a::movefsr(Drd(reg))); self.e(a::andi(Long, Drd(reg), 0x1F)); }
    /// A chunk of memory with this content; the address is even.
    fn data(&mut self, rng: &mut Rng, v: Vec<u8>) -> u32 { let at = self.place(rng, v.len() as u32); self.mem.push((at, v)); at }
    fn place(&mut self, rng: &mut Rng, len: u32) -> u32 {
        loop {
            let at = match rng.below(3) { 0 => 0x10_0000 + (rng.u32() & 0xF_FFFE), 1 => rng.u32() & 0xFFFF_FFFE, _ => 0x7FFF_F000u32.wrapping_add(rng.u32() & 0x1FFE) };
            let end = at.wrapping_add(len + 16);
            if at < 0x1_0000 || end < at || end > 0xFFFF_FF00 { continue; }
            let hit = |x: u32, n: u32| at < x + n + 32 && x < end + 16;
            if hit(self.base, 0x2000) || self.mem.iter().any(|m| hit(m.0, m.1.len() as u32)) || self.free.iter().any(|f| hit(f.0, f.1)) || self.want.iter().any(|m| hit(m.0, m.1.len() as u32)) { continue; }
            return at;
        }
    }
    fn result(&mut self, at: u32, v: Vec<u8>) { self.want.push((at, v)); }
}

fn bytes_of(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        2 => { let mut v = vec![0; n]; v[0] = 0x80; v },
        3 => (0..n).map(|_| rng.pick(&[0u8, 0xFF, 0x80, 0x7F, 1])).collect(),
        _ => (0..n).map(|_| rng.u8()).collect(),
    }
}
fn size(rng: &mut Rng) -> Size { rng.pick(&[Byte, Word, Long]) }
fn len(s: Size) -> usize { match s { Byte => 1, Word => 2, Long => 4 } }
fn get(v: &[u8], i: usize, s: Size) -> u32 { v[i * len(s)..(i + 1) * len(s)].iter().fold(0, |x, b| x << 8 | *b as u32) }
fn put(x: u32, s: Size) -> Vec<u8> { x.to_be_bytes()[4 - len(s)..].to_vec() }
fn sext(x: u32, s: Size) -> i32 { match s { Byte => x as u8 as i8 as i32, Word => x as u16 as i16 as i32, Long => x as i32 } }
/// Big-endian addition; returns sum and carry.
fn add_be(x: &[u8], y: &[u8], c: bool) -> (Vec<u8>, bool) {
    let mut v = vec![0; x.len()];
    let mut k = c as u16;
    for i in (0..x.len()).rev() { let s = x[i] as u16 + y[i] as u16 + k; v[i] = s as u8; k = s >> 8; }
    (v, k != 0)
}
fn sub_be(x: &[u8], y: &[u8], c: bool) -> (Vec<u8>, bool) {
    let mut v = vec![0; x.len()];
    let mut k = c as i16;
    for i in (0..x.len()).rev() { let s = x[i] as i16 - y[i] as i16 - k; v[i] = s as u8; k = (s < 0) as i16; }
    (v, k != 0)
}
fn xc(c: bool) -> u32 { if c { 0x11 } else { 0 } }

// Multi-precision addition, subtraction and negation.
fn multi(j: &mut Job, rng: &mut Rng) {
    let s = size(rng);
    let n = rng.range(1, 24) as usize;
    let (x, mut y) = (bytes_of(rng, n * len(s)), bytes_of(rng, n * len(s)));
    if rng.chance(1, 6) { y = x.clone(); }
    let x0 = rng.bool();
    let kind = rng.below(3);
    j.name = ["multi-add", "multi-subtract", "multi-negate"][kind as usize];
    let (px, py) = (j.data(rng, x.clone()), j.data(rng, y.clone()));
    let (d, r) = (j.d, j.r);
    j.lea(r[0], px + x.len() as u32);
    j.lea(r[1], py + y.len() as u32);
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    j.ccr(4 | if x0 { 16 } else { 0 });
    let top = j.here();
    match kind { 0 => j.e1(a::addx(r[0], s, MemoryToMemory, r[1])), 1 => j.e1(a::subx(r[0], s, MemoryToMemory, r[1])), _ => j.e(a::negx(s, Ariwpr(r[0]))) }
    j.dbra(d[0], top);
    j.flags(d[1]);
    let zero = vec![0; x.len()];
    let (v, c) = match kind { 0 => add_be(&x, &y, x0), 1 => sub_be(&x, &y, x0), _ => sub_be(&zero, &x, x0) };
    let (sx, sy, sv) = (x[0] >> 7, y[0] >> 7, v[0] >> 7);
    let over = match kind { 0 => sx == sy && sv != sx, 1 => sx != sy && sv != sx, _ => sx == 1 && sv == 1 };
    j.want_d.push((d[1], xc(c) | if sv == 1 { 8 } else { 0 } | if v.iter().all(|b| *b == 0) { 4 } else { 0 } | if over { 2 } else { 0 }));
    j.want_a.push((r[0], px));
    j.result(px, v);
    j.key = n as u64 | (kind << 8) | (len(s) as u64) << 12 | (x0 as u64) << 16;
}

// The same in registers: 64 and 96 bits.
fn multi_reg(j: &mut Job, rng: &mut Rng) {
    j.name = "multi-register";
    let n = rng.range(2, 3) as usize;
    let s = size(rng);
    let (x, y) = (bytes_of(rng, n * len(s)), bytes_of(rng, n * len(s)));
    let sub = rng.bool();
    let d = j.d;
    let old: Vec<u32> = (0..n).map(|i| j.c.d[d[i] as usize]).collect();
    for i in 0..n { j.mv(s, Drd(d[i]), Immediate(get(&x, i, s))); j.mv(s, Drd(d[3 + i]), Immediate(get(&y, i, s))); }
    for i in (0..n).rev() {
        if i == n - 1 { if sub { j.e(a::sub(d[i], DstReg, s, Drd(d[3 + i]))) } else { j.e(a::add(d[i], DstReg, s, Drd(d[3 + i]))) } }
        else if sub { j.e1(a::subx(d[i], s, RegisterToRegister, d[3 + i])) } else { j.e1(a::addx(d[i], s, RegisterToRegister, d[3 + i])) }
    }
    j.flags(d[6]);
    let (v, c) = if sub { sub_be(&x, &y, false) } else { add_be(&x, &y, false) };
    let m = match s { Byte => 0xFF, Word => 0xFFFF, Long => !0u32 };
    for i in 0..n { j.want_d.push((d[i], old[i] & !m | get(&v, i, s))); }
    let (sx, sy, sv) = (x[0] >> 7, y[0] >> 7, v[0] >> 7);
    let over = if sub { sx != sy && sv != sx } else { sx == sy && sv != sx };
    j.want_d.push((d[6], xc(c) | if sv == 1 { 8 } else { 0 } | if v.iter().all(|b| *b == 0) { 4 } else { 0 } | if over { 2 } else { 0 }));
    j.key = n as u64 | (sub as u64) << 8 | (len(s) as u64) << 12;
}

// Decimal numbers of any length.
fn decimal(j: &mut Job, rng: &mut Rng) {
    let n = rng.range(1, 30) as usize;
    let mut num = |rng: &mut Rng| -> Vec<u8> { let m = rng.below(4); (0..n).map(|_| match m { 0 => 0x99, 1 => rng.pick(&[0u8, 0x99, 0x01, 0x90, 0x09]), _ => rng.below(10) as u8 | (rng.below(10) as u8) << 4 }).collect() };
    let (x, mut y) = (num(rng), num(rng));
    if rng.chance(1, 6) { y = x.clone(); }
    let x0 = rng.bool();
    let kind = rng.below(3);
    j.name = ["decimal-add", "decimal-subtract", "decimal-negate"][kind as usize];
    let (px, py) = (j.data(rng, x.clone()), j.data(rng, y.clone()));
    let (d, r) = (j.d, j.r);
    j.lea(r[0], px + n as u32);
    j.lea(r[1], py + n as u32);
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    j.ccr(4 | if x0 { 16 } else { 0 });
    let top = j.here();
    match kind {
        0 => j.e1(a::abcd(r[0], MemoryToMemory, r[1])),
        1 => j.e1(a::sbcd(r[0], MemoryToMemory, r[1])),
        _ => j.e(a::nbcd(Ariwpr(r[0]))),
    }
    j.dbra(d[0], top);
    j.flags(d[1]);
    // N and V are undefined.
    j.e(a::andi(Long, Drd(d[1]), 0x15));
    let val = |v: &[u8]| -> Vec<i32> { v.iter().flat_map(|b| [(b >> 4) as i32, (b & 15) as i32]).collect() };
    let (dx, dy) = (val(&x), val(&y));
    let mut out = vec![0i32; 2 * n];
    let mut k = x0 as i32;
    for i in (0..2 * n).rev() {
        let t = match kind { 0 => dx[i] + dy[i] + k, 1 => dx[i] - dy[i] - k, _ => -dx[i] - k };
        out[i] = t.rem_euclid(10);
        k = (t < 0 || t > 9) as i32;
    }
    let v: Vec<u8> = (0..n).map(|i| (out[2 * i] << 4 | out[2 * i + 1]) as u8).collect();
    j.want_d.push((d[1], xc(k != 0) | if v.iter().all(|b| *b == 0) { 4 } else { 0 }));
    j.result(px, v);
    j.key = n as u64 | kind << 8 | (x0 as u64) << 16;
}

// Long shifts through memory, one word at a time.
fn long_shift(j: &mut Job, rng: &mut Rng) {
    let n = rng.range(1, 20) as usize;
    let times = rng.range(1, 20) as u32;
    let x = bytes_of(rng, 2 * n);
    let px = j.data(rng, x.clone());
    let (d, r) = (j.d, j.r);
    let kind = rng.below(4);
    j.name = ["long-shift-left", "long-shift-right", "long-shift-right-signed", "long-rotate-left"][kind as usize];
    j.mv(Word, Drd(d[0]), Immediate(times - 1));
    let outer = j.here();
    let left = kind == 0 || kind == 3;
    j.lea(r[0], if left { px + 2 * n as u32 } else { px });
    if n > 1 { j.mv(Word, Drd(d[1]), Immediate(n as u32 - 2)); }
    match kind {
        0 => j.e(if rng.bool() { a::asm(Left, Ariwpr(r[0])) } else { a::lsm(Left, Ariwpr(r[0])) }),
        1 => j.e(a::lsm(Right, Ariwpo(r[0]))),
        2 => j.e(a::asm(Right, Ariwpo(r[0]))),
        _ => {
            // X becomes the top bit first.
            j.mv(Word, Drd(d[2]), AbsLong(px));
            j.e(a::add(d[2], DstReg, Word, Drd(d[2])));
            j.e(a::roxm(Left, Ariwpr(r[0])));
        },
    }
    if n > 1 {
        let top = j.here();
        j.e(if left { a::roxm(Left, Ariwpr(r[0])) } else { a::roxm(Right, Ariwpo(r[0])) });
        j.dbra(d[1], top);
    }
    j.dbra(d[0], outer);
    let mut v = x.clone();
    for _ in 0..times {
        if left {
            let mut k = if kind == 3 { v[0] >> 7 } else { 0 };
            for b in v.iter_mut().rev() { let t = *b >> 7; *b = *b << 1 | k; k = t; }
        } else {
            let mut k = if kind == 2 { v[0] >> 7 } else { 0 };
            for b in v.iter_mut() { let t = *b & 1; *b = *b >> 1 | k << 7; k = t; }
        }
    }
    j.result(px, v);
    j.key = n as u64 | kind << 8 | (times as u64) << 12;
}

// Shifts of two registers together, and of one by its own count.
fn reg_shift(j: &mut Job, rng: &mut Rng) {
    j.name = "register-shift";
    let d = j.d;
    let (hi, lo) = (rng.operand(), rng.operand());
    let k = rng.range(1, 40) as u32;
    let left = rng.bool();
    j.mv(Long, Drd(d[0]), Immediate(hi));
    j.mv(Long, Drd(d[1]), Immediate(lo));
    j.e1(a::moveq(d[2], (k - 1) as i8));
    let top = j.here();
    if left { j.e1(if rng.bool() { a::lsr(1, Left, Long, false, d[1] as u16) } else { a::asr(1, Left, Long, false, d[1] as u16) }); j.e1(a::roxr(1, Left, Long, false, d[0] as u16)); }
    else { j.e1(a::lsr(1, Right, Long, false, d[0] as u16)); j.e1(a::roxr(1, Right, Long, false, d[1] as u16)); }
    j.dbra(d[2], top);
    let x = (hi as u64) << 32 | lo as u64;
    let y = if left { x << k } else { x >> k };
    j.want_d.push((d[0], (y >> 32) as u32));
    j.want_d.push((d[1], y as u32));
    // Shifts by a register are the sum of shifts by its parts; counts go up to 63.
    let s = size(rng);
    let m = match s { Byte => 0xFFu32, Word => 0xFFFF, Long => !0 };
    let v = rng.operand();
    let cnt = rng.below(130) as u32;
    j.mv(Long, Drd(d[3]), Immediate(v));
    j.e1(a::moveq(d[4], 0));
    j.mv(Byte, Drd(d[4]), Immediate(cnt));
    let c = cnt % 64;
    let bits = 8 * len(s) as u32;
    let (w, res) = match rng.below(4) {
        0 => (a::lsr(d[4] as u16, Left, s, true, d[3] as u16), if c >= bits { 0 } else { (v & m) << c }),
        1 => (a::lsr(d[4] as u16, Right, s, true, d[3] as u16), if c >= bits { 0 } else { (v & m) >> c }),
        2 => (a::asr(d[4] as u16, Right, s, true, d[3] as u16), (sext(v, s) as i64 >> c.min(40)) as u32),
        _ => (a::ror(d[4] as u16, Left, s, true, d[3] as u16), { let x = (v & m) as u64; let q = c % bits; (x << q | x >> (bits - q)) as u32 }),
    };
    j.e1(w);
    j.want_d.push((d[3], v & !m | res & m));
    j.key = k as u64 | (left as u64) << 8 | (cnt as u64) << 12 | (w as u64) << 20;
}

// Big number times word, divided by word.
fn scale(j: &mut Job, rng: &mut Rng) {
    let n = rng.range(1, 20) as usize;
    let x = bytes_of(rng, 2 * n);
    let f = (rng.operand() & 0xFFFF).max(1);
    let px = j.data(rng, x.clone());
    let out = j.place(rng, 2 * n as u32 + 2);
    let (d, r) = (j.d, j.r);
    j.mv(Word, Drd(d[3]), Immediate(f));
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    j.e1(a::moveq(d[4], 0));
    let div = rng.bool();
    if div {
        j.name = "divide-big";
        j.lea(r[0], px);
        j.lea(r[1], out);
        let top = j.here();
        j.mv(Word, Drd(d[4]), Ariwpo(r[0]));
        j.e(a::divu(d[4], Drd(d[3])));
        j.mv(Word, Ariwpo(r[1]), Drd(d[4]));
        j.dbra(d[0], top);
        j.e(a::clr(Word, Drd(d[4])));
        j.e1(a::swap(d[4]));
        let mut rem = 0u64;
        let mut v = Vec::new();
        for i in 0..n { let t = rem << 16 | get(&x, i, Word) as u64; v.extend(((t / f as u64) as u16).to_be_bytes()); rem = t % f as u64; }
        j.result(out, v);
        j.want_d.push((d[4], rem as u32));
    } else {
        j.name = "multiply-big";
        j.lea(r[0], px + 2 * n as u32);
        j.lea(r[1], out + 2 * n as u32 + 2);
        let top = j.here();
        j.mv(Word, Drd(d[1]), Ariwpr(r[0]));
        j.e(a::mulu(d[1], Drd(d[3])));
        j.e(a::add(d[1], DstReg, Long, Drd(d[4])));
        j.mv(Word, Ariwpr(r[1]), Drd(d[1]));
        j.e(a::clr(Word, Drd(d[1])));
        j.e1(a::swap(d[1]));
        j.mv(Long, Drd(d[4]), Drd(d[1]));
        j.dbra(d[0], top);
        j.mv(Word, Ariwpr(r[1]), Drd(d[4]));
        let mut v = vec![0u8; 2 * n + 2];
        let mut k = 0u64;
        for i in (0..n).rev() { let t = get(&x, i, Word) as u64 * f as u64 + k; v[2 * i + 2..2 * i + 4].copy_from_slice(&(t as u16).to_be_bytes()); k = t >> 16; }
        v[..2].copy_from_slice(&(k as u16).to_be_bytes());
        j.result(out, v);
    }
    j.key = n as u64 | (f as u64) << 8 | (div as u64) << 24;
}

// Tables of signed and unsigned multiplications and divisions, with the overflow branch taken where the quotient does not fit.
fn tables(j: &mut Job, rng: &mut Rng) {
    let n = rng.range(1, 30) as usize;
    let kind = rng.below(4);
    j.name = ["table-mulu", "table-muls", "table-divu", "table-divs"][kind as usize];
    let mut src = Vec::new();
    let mut v = Vec::new();
    for _ in 0..n {
        let (mut x, y) = (rng.operand(), match rng.operand() as u16 { 0 => 7, y => y });
        if kind > 1 && rng.chance(1, 2) { x = if kind == 2 { rng.u32() % ((y as u32) << 16) } else { let q = rng.u16() as i16 as i64; let m = (y as i16 as i64).abs(); let rem = rng.below(m as u64) as i64; let p = q * y as i16 as i64; (p + if p < 0 { -rem } else { rem }) as i32 as u32 }; }
        if kind > 1 { src.extend(x.to_be_bytes()); } else { src.extend((x as u16).to_be_bytes()); }
        src.extend(y.to_be_bytes());
        let res = match kind {
            0 => (x as u16 as u32) * y as u32,
            1 => ((x as u16 as i16 as i32) * y as i16 as i32) as u32,
            2 => { let (q, r) = (x / y as u32, x % y as u32); if q > 0xFFFF { !x } else { r << 16 | q } },
            _ => { let (p, y) = (x as i32 as i64, y as i16 as i64); let (q, r) = (p / y, p % y); if !(-32768..=32767).contains(&q) { !x } else { (r as u16 as u32) << 16 | q as u16 as u32 } },
        };
        v.extend(res.to_be_bytes());
    }
    let px = j.data(rng, src);
    let out = j.place(rng, v.len() as u32);
    let (d, r) = (j.d, j.r);
    j.lea(r[0], px);
    j.lea(r[1], out);
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    let top = j.here();
    if kind > 1 { j.mv(Long, Drd(d[1]), Ariwpo(r[0])); } else { j.mv(Word, Drd(d[1]), Ariwpo(r[0])); }
    match kind { 0 => j.e(a::mulu(d[1], Ariwpo(r[0]))), 1 => j.e(a::muls(d[1], Ariwpo(r[0]))), 2 => j.e(a::divu(d[1], Ariwpo(r[0]))), _ => j.e(a::divs(d[1], Ariwpo(r[0]))) }
    let f = j.bcc_fwd(Cc::VC);
    j.e(a::not(Long, Drd(d[1])));
    j.here_is(f);
    j.mv(Long, Ariwpo(r[1]), Drd(d[1]));
    j.dbra(d[0], top);
    j.result(out, v);
    j.key = n as u64 | kind << 8;
}

// Copies: units of every size, both directions, overlapping, blocks of registers.
fn copies(j: &mut Job, rng: &mut Rng) {
    let (d, r) = (j.d, j.r);
    let kind = rng.below(4);
    j.name = ["copy-up", "copy-down", "copy-blocks", "fill"][kind as usize];
    let s = size(rng);
    let n = rng.range(1, 40) as usize;
    let total = n * len(s);
    match kind {
        0 | 1 => {
            // Overlap: the copy propagates what it has already written.
            let shift = rng.below(3) as usize * len(s) + if s == Byte { rng.below(2) as usize } else { 0 };
            let x = bytes_of(rng, total + shift);
            let px = j.data(rng, x.clone());
            let (src, dst) = if rng.bool() { (0, shift) } else { (shift, 0) };
            let mut v = x.clone();
            let order: Vec<usize> = if kind == 0 { (0..n).collect() } else { (0..n).rev().collect() };
            for i in order { let u = v[src + i * len(s)..src + (i + 1) * len(s)].to_vec(); v[dst + i * len(s)..dst + (i + 1) * len(s)].copy_from_slice(&u); }
            j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
            if kind == 0 {
                j.lea(r[0], px + src as u32);
                j.lea(r[1], px + dst as u32);
            } else {
                j.lea(r[0], px + (src + total) as u32);
                j.lea(r[1], px + (dst + total) as u32);
            }
            let top = j.here();
            if kind == 0 { j.mv(s, Ariwpo(r[1]), Ariwpo(r[0])); } else { j.mv(s, Ariwpr(r[1]), Ariwpr(r[0])); }
            j.dbra(d[0], top);
            j.result(px, v);
        },
        2 => {
            // MOVEM through all registers but the two pointers and the stack pointer.
            let blocks = rng.range(1, 6) as usize;
            let s = rng.pick(&[Word, Long]);
            let mut mask = 0u16;
            while mask == 0 { mask = rng.u16() & 0x7FFF & !(1 << (8 + r[0])) & !(1 << (8 + r[1])) & !(1 << d[0]); }
            let cnt = mask.count_ones() as usize;
            let x = bytes_of(rng, blocks * cnt * len(s));
            let px = j.data(rng, x.clone());
            let out = j.place(rng, x.len() as u32 * 2);
            j.lea(r[0], px);
            let down = rng.bool();
            j.lea(r[1], if down { out + (blocks * cnt * len(s)) as u32 } else { out });
            j.e1(a::moveq(d[0], blocks as i8 - 1));
            let top = j.here();
            j.e(a::movem(MemoryToRegister, s, Ariwpo(r[0]), mask));
            if down { j.e(a::movem(RegisterToMemory, s, Ariwpr(r[1]), mask.reverse_bits())); }
            else { j.e(a::movem(RegisterToMemory, s, Ari(r[1]), mask)); j.e(a::lea(r[1], Ariwd(r[1], (cnt * len(s)) as i16))); }
            j.dbra(d[0], top);
            let mut v = Vec::new();
            if down { for b in x.chunks(cnt * len(s)).rev() { v.extend_from_slice(b); } } else { v = x.clone(); }
            j.result(out, v);
            j.want_a.push((r[0], px + x.len() as u32));
        },
        _ => {
            let v = rng.operand();
            let step = rng.range(1, 3) as usize;
            let x = bytes_of(rng, total * step);
            let px = j.data(rng, x.clone());
            j.lea(r[0], px);
            j.mv(Long, Drd(d[1]), Immediate(v));
            j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
            let top = j.here();
            match rng.below(3) { 0 => j.mv(s, Ari(r[0]), Drd(d[1])), 1 => j.mv(s, Ariwd(r[0], 0), Drd(d[1])), _ => { j.e1(a::moveq(d[2], 0)); j.mv(s, Ariwi8(r[0], Bew::new(false, d[2], rng.bool(), 0)), Drd(d[1])) } }
            j.e(a::adda(r[0], Word, Immediate((step * len(s)) as u32)));
            j.dbra(d[0], top);
            let mut w = x;
            for i in 0..n { w[i * step * len(s)..][..len(s)].copy_from_slice(&put(v, s)); }
            j.result(px, w);
        },
    }
    j.key = n as u64 | kind << 8 | (len(s) as u64) << 12;
}

// Sorting, signed and unsigned.
fn sort(j: &mut Job, rng: &mut Rng) {
    let s = size(rng);
    let n = rng.range(2, 14) as usize;
    let signed = rng.bool();
    j.name = if signed { "sort-signed" } else { "sort-unsigned" };
    let x: Vec<u8> = (0..n).flat_map(|_| put(rng.operand(), s)).collect();
    let px = j.data(rng, x.clone());
    let (d, r) = (j.d, j.r);
    let l = len(s) as i16;
    let outer = j.here();
    j.lea(r[0], px);
    j.lea(r[1], px + l as u32);
    j.e1(a::moveq(d[5], 0));
    j.mv(Word, Drd(d[6]), Immediate(n as u32 - 2));
    let inner = j.here();
    let okcc;
    match rng.below(3) {
        0 => { j.mv(s, Drd(d[1]), Ariwpo(r[0])); j.mv(s, Drd(d[2]), Ariwpo(r[1])); j.e(a::cmp(d[1], s, Drd(d[2]))); okcc = if signed { Cc::LE } else { Cc::LS }; },
        1 => { j.e1(a::cmpm(r[1], s, r[0])); okcc = if signed { Cc::GE } else { Cc::CC }; },
        _ => { j.mv(s, Drd(d[1]), Ariwpo(r[1])); j.e(a::cmp(d[1], s, Ariwpo(r[0]))); okcc = if signed { Cc::GE } else { Cc::CC }; },
    }
    let f = j.bcc_fwd(okcc);
    j.mv(s, Drd(d[3]), Ariwd(r[0], -l));
    j.mv(s, Ariwd(r[0], -l), Ariwd(r[1], -l));
    j.mv(s, Ariwd(r[1], -l), Drd(d[3]));
    j.e(a::addq(1, Word, Drd(d[5])));
    j.here_is(f);
    j.dbra(d[6], inner);
    j.e(a::tst(Word, Drd(d[5])));
    j.bcc(Cc::NE, outer);
    let mut v: Vec<u32> = (0..n).map(|i| get(&x, i, s)).collect();
    if signed { v.sort_by_key(|u| sext(*u, s)); } else { v.sort(); }
    j.result(px, v.into_iter().flat_map(|u| put(u, s)).collect());
    j.key = n as u64 | (signed as u64) << 8 | (len(s) as u64) << 12 | (okcc as u64) << 16;
}

fn gcd(j: &mut Job, rng: &mut Rng) {
    j.name = "gcd";
    let d = j.d;
    let (x, y) = if rng.bool() { let g = rng.range(1, 200) as u32; (g * rng.range(1, 300) as u32, g * rng.range(1, 300) as u32) } else { (rng.u16() as u32, rng.u16() as u32) };
    j.mv(Long, Drd(d[0]), Immediate(x));
    j.mv(Long, Drd(d[1]), Immediate(y));
    let top = j.here();
    j.e(a::tst(Word, Drd(d[1])));
    let done = j.bcc_fwd(Cc::EQ);
    j.e(a::andi(Long, Drd(d[0]), 0xFFFF));
    j.e(a::divu(d[0], Drd(d[1])));
    j.e1(a::swap(d[0]));
    j.e1(a::exg(d[0], ExchangeData, d[1]));
    j.bra(top);
    j.here_is(done);
    j.e(a::andi(Long, Drd(d[0]), 0xFFFF));
    let (mut p, mut q) = (x & 0xFFFF, y & 0xFFFF);
    while q != 0 { (p, q) = (q, p % q); }
    j.want_d.push((d[0], p));
    j.key = (x as u64) << 16 | y as u64;
}

fn crc(j: &mut Job, rng: &mut Rng) {
    let n = rng.range(1, 24) as usize;
    let x = bytes_of(rng, n);
    let px = j.data(rng, x.clone());
    let (d, r) = (j.d, j.r);
    let wide = rng.bool();
    j.name = if wide { "crc-32" } else { "crc-16" };
    j.lea(r[0], px);
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    j.mv(Long, Drd(d[1]), Immediate(if wide { !0 } else { 0xFFFF }));
    let byte = j.here();
    let v;
    if wide {
        j.e1(a::moveq(d[2], 0));
        j.mv(Byte, Drd(d[2]), Ariwpo(r[0]));
        j.e(a::eor(d[2], Long, Drd(d[1])));
        j.e1(a::moveq(d[3], 7));
        let bit = j.here();
        j.e1(a::lsr(1, Right, Long, false, d[1] as u16));
        let f = j.bcc_fwd(Cc::CC);
        j.e(a::eori(Long, Drd(d[1]), 0xEDB8_8320));
        j.here_is(f);
        j.dbra(d[3], bit);
        j.dbra(d[0], byte);
        j.e(a::not(Long, Drd(d[1])));
        let mut c = !0u32;
        for b in &x { c ^= *b as u32; for _ in 0..8 { c = c >> 1 ^ if c & 1 != 0 { 0xEDB8_8320 } else { 0 }; } }
        v = !c;
    } else {
        j.mv(Byte, Drd(d[2]), Ariwpo(r[0]));
        j.e1(a::lsr(0, Left, Word, false, d[2] as u16));
        j.e(a::eor(d[2], Word, Drd(d[1])));
        j.e1(a::moveq(d[3], 7));
        let bit = j.here();
        j.e(a::add(d[1], DstReg, Word, Drd(d[1])));
        let f = j.bcc_fwd(Cc::CC);
        j.e(a::eori(Word, Drd(d[1]), 0x1021));
        j.here_is(f);
        j.dbra(d[3], bit);
        j.dbra(d[0], byte);
        let mut c = 0xFFFFu16;
        for b in &x { c ^= (*b as u16) << 8; for _ in 0..8 { c = c << 1 ^ if c & 0x8000 != 0 { 0x1021 } else { 0 }; } }
        v = c as u32;
    }
    j.want_d.push((d[1], v));
    j.key = n as u64 | (wide as u64) << 8;
}

// Recursion with stack frames: Fibonacci numbers and binomial coefficients.
fn recursion(j: &mut Job, rng: &mut Rng) {
    let (d, r) = (j.d, j.r);
    let fp = r[0];
    if rng.bool() {
        j.name = "fibonacci";
        let n = rng.range(0, 11) as u32;
        j.mv(Long, Ariwpr(7), Immediate(n));
        let call = j.bsr_fwd();
        j.e(a::addq(4, Long, Ard(7)));
        let end = j.bra_fwd();
        j.here_is(call);
        let f = j.here();
        j.e(a::link(fp, -8));
        j.mv(Long, Drd(d[0]), Ariwd(fp, 8));
        j.e(a::cmpi(Long, Drd(d[0]), 2));
        let base = j.bcc_fwd(Cc::CS);
        j.e(a::subq(1, Long, Drd(d[0])));
        j.mv(Long, Ariwd(fp, -4), Drd(d[0]));
        j.mv(Long, Ariwpr(7), Drd(d[0]));
        j.bsr(f);
        j.mv(Long, Ariwd(fp, -8), Drd(d[0]));
        j.mv(Long, Drd(d[1]), Ariwd(fp, -4));
        j.e(a::subq(1, Long, Drd(d[1])));
        j.mv(Long, Ari(7), Drd(d[1]));
        j.bsr(f);
        j.e(a::add(d[0], DstReg, Long, Ariwd(fp, -8)));
        j.here_is(base);
        j.e1(a::unlk(fp));
        j.e1(a::rts());
        j.here_is(end);
        let (mut p, mut q) = (0u32, 1u32);
        for _ in 0..n { (p, q) = (q, p + q); }
        j.want_d.push((d[0], p));
        j.want_a.push((fp, j.c.a[fp as usize]));
        j.key = n as u64;
    } else {
        // C(n, k) with saved registers, called through a pointer.
        j.name = "binomial";
        let n = rng.range(0, 8) as u32;
        let k = rng.range(0, n as u64) as u32;
        j.e1(a::moveq(d[0], n as i8));
        j.e1(a::moveq(d[1], k as i8));
        let skip = j.bra_fwd();
        let f = j.here();
        let mask = 1u16 << d[0].max(d[1]) | 1 << d[0].min(d[1]) | 1 << d[2];
        j.e(a::tst(Word, Drd(d[1])));
        let one = j.bcc_fwd(Cc::EQ);
        j.e(a::cmp(d[1], Word, Drd(d[0])));
        let one2 = j.bcc_fwd(Cc::EQ);
        j.e(a::subq(1, Word, Drd(d[0])));
        j.e(a::movem(RegisterToMemory, Long, Ariwpr(7), mask.reverse_bits()));
        j.e(a::jsr(Ari(r[1])));
        j.e(a::movem(MemoryToRegister, Long, Ariwpo(7), mask));
        j.mv(Long, Ariwpr(7), Drd(d[3]));
        j.e(a::subq(1, Word, Drd(d[1])));
        j.e(a::movem(RegisterToMemory, Word, Ariwpr(7), mask.reverse_bits()));
        j.e(a::jsr(Ariwd(r[1], 0)));
        j.e(a::movem(MemoryToRegister, Word, Ariwpo(7), mask));
        j.e(a::add(d[3], DstReg, Long, Ariwpo(7)));
        j.e1(a::rts());
        j.here_is(one);
        j.here_is(one2);
        j.e1(a::moveq(d[3], 1));
        j.e1(a::rts());
        j.here_is(skip);
        let at = j.base + 2 * f as u32;
        j.lea(r[1], at);
        j.e(a::jsr(Ari(r[1])));
        let c = (0..k).fold(1u64, |c, i| c * (n - i) as u64 / (i + 1) as u64);
        j.want_d.push((d[3], c as u32));
        j.key = n as u64 | (k as u64) << 8;
    }
}

// Decimal digits of a number, kept on the stack, and back.
fn digits(j: &mut Job, rng: &mut Rng) {
    let (d, r) = (j.d, j.r);
    let n = match rng.below(4) { 0 => rng.u32() >> rng.below(32), _ => rng.operand() };
    j.name = "digits";
    let s = n.to_string().into_bytes();
    let out = j.place(rng, 12);
    j.free.push((out, 12));
    let back = j.place(rng, 4);
    j.lea(r[0], out);
    j.mv(Long, Drd(d[0]), Immediate(n));
    j.e1(a::moveq(d[3], 0));
    let top = j.here();
    // 32 by 16 bit division in two steps.
    j.e1(a::moveq(d[1], 0));
    j.e1(a::swap(d[0]));
    j.mv(Word, Drd(d[1]), Drd(d[0]));
    j.e(a::divu(d[1], Immediate(10)));
    j.mv(Word, Drd(d[0]), Drd(d[1]));
    j.e1(a::swap(d[0]));
    j.mv(Word, Drd(d[1]), Drd(d[0]));
    j.e(a::divu(d[1], Immediate(10)));
    j.mv(Word, Drd(d[0]), Drd(d[1]));
    j.e1(a::swap(d[1]));
    j.e(a::ori(Byte, Drd(d[1]), 0x30));
    j.mv(Byte, Ariwpr(7), Drd(d[1]));
    j.e(a::addq(1, Word, Drd(d[3])));
    j.e(a::tst(Long, Drd(d[0])));
    j.bcc(Cc::NE, top);
    j.e(a::subq(1, Word, Drd(d[3])));
    let pop = j.here();
    j.mv(Byte, Ariwpo(r[0]), Ariwpo(7));
    j.dbra(d[3], pop);
    j.e(a::clr(Byte, Ari(r[0])));
    // Back to binary: x*10 = (x*4 + x)*2.
    j.lea(r[1], out);
    j.e1(a::moveq(d[4], 0));
    let again = j.here();
    j.e1(a::moveq(d[5], 0));
    j.mv(Byte, Drd(d[5]), Ariwpo(r[1]));
    let end = j.bcc_fwd(Cc::EQ);
    j.e(a::subi(Byte, Drd(d[5]), 0x30));
    j.mv(Long, Drd(d[6]), Drd(d[4]));
    j.e1(a::lsr(2, Left, Long, false, d[4] as u16));
    j.e(a::add(d[4], DstReg, Long, Drd(d[6])));
    j.e1(a::asr(1, Left, Long, false, d[4] as u16));
    j.e(a::add(d[4], DstReg, Long, Drd(d[5])));
    j.bra(again);
    j.here_is(end);
    j.mv(Long, AbsLong(back), Drd(d[4]));
    j.want_d.push((d[4], n));
    j.want_a.push((r[0], out + s.len() as u32));
    let mut v = s;
    v.push(0);
    j.free.clear();
    j.result(out, v);
    j.result(back, n.to_be_bytes().to_vec());
    j.key = n as u64;
}

// Bits counted, reversed, tested, set in memory.
fn bits(j: &mut Job, rng: &mut Rng) {
    let d = j.d;
    j.name = "bits";
    let x = rng.operand();
    j.mv(Long, Drd(d[0]), Immediate(x));
    j.e1(a::moveq(d[1], 0));
    j.e1(a::moveq(d[2], 0));
    j.e1(a::moveq(d[3], 31));
    j.e1(a::moveq(d[5], 0));
    let top = j.here();
    let how = rng.below(3);
    match how {
        0 => { j.e(a::btst_dynamic(d[3], Drd(d[0]))); let f = j.bcc_fwd(Cc::EQ); j.e(a::addq(1, Long, Drd(d[1]))); j.here_is(f); },
        1 => { j.e1(a::ror(1, Left, Long, false, d[0] as u16)); let f = j.bcc_fwd(Cc::CC); j.e(a::addq(1, Byte, Drd(d[1]))); j.here_is(f); },
        _ => { j.e1(a::ror(1, Right, Long, false, d[0] as u16)); j.e(a::scc(Cc::CS, Drd(d[4]))); j.e(a::sub(d[1], DstReg, Byte, Drd(d[4]))); },
    }
    // The reversed word, bit by bit.
    j.e(a::btst_dynamic(d[3], Drd(d[0])));
    let f = j.bcc_fwd(Cc::EQ);
    j.e1(a::moveq(d[4], 31));
    j.e(a::sub(d[4], DstReg, Byte, Drd(d[3])));
    j.e(a::bset_dynamic(d[4], Drd(d[2])));
    j.here_is(f);
    j.dbra(d[3], top);
    j.want_d.push((d[1], x.count_ones()));
    let rev = match how {
        0 => x.reverse_bits(),
        _ => {
            let mut v = 0u32;
            let mut t = x;
            for b in (0..32u32).rev() { t = if how == 1 { t.rotate_left(1) } else { t.rotate_right(1) }; if t >> b & 1 != 0 { v |= 1 << (31 - b); } }
            v
        },
    };
    j.want_d.push((d[2], rev));
    j.key = x as u64 | how << 32;
}

// A sieve of primes, one bit per number.
fn sieve(j: &mut Job, rng: &mut Rng) {
    let (d, r) = (j.d, j.r);
    j.name = "sieve";
    let n = rng.range(8, 200) as u32;
    let bytes = (n / 8 + 1) as usize;
    let px = j.data(rng, vec![0; bytes]);
    j.lea(r[0], px);
    j.e1(a::moveq(d[0], 2));
    j.e1(a::moveq(d[6], 0));
    let outer = j.here();
    j.mv(Long, Drd(d[1]), Drd(d[0]));
    j.mv(Long, Drd(d[6]), Drd(d[0]));
    j.e1(a::lsr(3, Right, Word, false, d[6] as u16));
    j.e(a::btst_dynamic(d[0], Ariwi8(r[0], Bew::new(false, d[6], false, 0))));
    let composite = j.bcc_fwd(Cc::NE);
    let mark = j.here();
    j.e(a::add(d[1], DstReg, Word, Drd(d[0])));
    j.e(a::cmpi(Word, Drd(d[1]), n + 1));
    let out = j.bcc_fwd(Cc::CC);
    j.mv(Word, Drd(d[6]), Drd(d[1]));
    j.e1(a::lsr(3, Right, Word, false, d[6] as u16));
    j.e(a::bset_dynamic(d[1], Ariwi8(r[0], Bew::new(false, d[6], false, 0))));
    j.bra(mark);
    j.here_is(out);
    j.here_is(composite);
    j.e(a::addq(1, Word, Drd(d[0])));
    j.e(a::cmpi(Word, Drd(d[0]), n));
    j.bcc(Cc::LE, outer);
    let mut v = vec![0u8; bytes];
    for q in 2..=n { if (2..q).any(|k| q % k == 0) { v[q as usize / 8] |= 1 << (q % 8); } }
    j.result(px, v);
    j.key = n as u64;
}

// An interpreter: a jump table, PC-relative data, and byte codes.
fn machine(j: &mut Job, rng: &mut Rng) {
    j.name = "jump-table";
    let (d, r) = (j.d, j.r);
    let n = rng.range(1, 40) as usize;
    let mut code: Vec<u8> = (0..n).map(|_| 1 + rng.below(11) as u8).collect();
    code.push(0);
    let px = j.data(rng, code.clone());
    let x = rng.operand();
    let k = rng.operand();
    j.lea(r[0], px);
    j.mv(Long, Drd(d[2]), Immediate(x));
    j.mv(Long, Drd(d[3]), Immediate(k));
    let top = j.here();
    j.mv(Byte, Drd(d[0]), Ariwpo(r[0]));
    j.e1(a::ext(false, d[0]));
    j.e(a::add(d[0], DstReg, Word, Drd(d[0])));
    // MOVE.W table(PC,d0.W),d0; JMP table(PC,d0.W)
    let m = j.here();
    j.mv(Word, Drd(d[0]), Pciwi8(0, Bew::new(false, d[0], false, 6)));
    j.e(a::jmp(Pciwi8(0, Bew::new(false, d[0], false, 2))));
    assert!(j.here() == m + 4);
    let table = j.here();
    for _ in 0..12 { j.e1(0); }
    let ops: Vec<Vec<u16>> = vec![
        vec![],
        a::add(d[2], DstReg, Long, Drd(d[3])), a::sub(d[2], DstReg, Long, Drd(d[3])), a::eor(d[3], Long, Drd(d[2])), vec![a::ror(1, Left, Long, false, d[2] as u16)], a::not(Long, Drd(d[2])),
        a::neg(Long, Drd(d[2])), vec![a::swap(d[2])], vec![a::exg(d[2], ExchangeData, d[3])], a::muls(d[2], Drd(d[3])), vec![a::ext(true, d[2])], vec![a::asr(3, Right, Long, false, d[2] as u16)],
    ];
    let mut end = None;
    for (i, w) in ops.iter().enumerate() {
        j.w[table + i] = (2 * (j.here() - table)) as u16;
        if i == 0 { end = Some(j.bra_fwd()); } else { j.e(w); j.bra(top); }
    }
    j.here_is(end.unwrap());
    let (mut x, mut k) = (x, k);
    for b in &code[..n] {
        match b {
            1 => x = x.wrapping_add(k), 2 => x = x.wrapping_sub(k), 3 => x ^= k, 4 => x = x.rotate_left(1), 5 => x = !x, 6 => x = x.wrapping_neg(), 7 => x = x.rotate_left(16),
            8 => (x, k) = (k, x), 9 => x = (x as i16 as i32).wrapping_mul(k as i16 as i32) as u32, 10 => x = x as i16 as i32 as u32, _ => x = (x as i32 >> 3) as u32,
        }
    }
    j.want_d.push((d[2], x));
    j.want_d.push((d[3], k));
    j.want_a.push((r[0], px + n as u32 + 1));
    j.key = mix(code.iter().fold(0u64, |h, b| mix(h ^ *b as u64))) ^ x as u64;
}

// Searches with DBcc: every condition, found or exhausted.
fn search(j: &mut Job, rng: &mut Rng) {
    j.name = "search";
    let (d, r) = (j.d, j.r);
    let s = size(rng);
    let n = rng.range(1, 30) as usize;
    let x: Vec<u8> = (0..n).flat_map(|_| put(rng.operand(), s)).collect();
    let key = if rng.bool() { get(&x, rng.below(n as u64) as usize, s) } else { rng.operand() };
    let ci = rng.range(2, 15) as usize;
    let cc = crate::asmapi::CONDS[ci];
    let px = j.data(rng, x.clone());
    j.lea(r[0], px);
    j.mv(Long, Drd(d[1]), Immediate(key));
    j.mv(Long, Drd(d[0]), Immediate(0x5A5A_0000 | (n as u32 - 1)));
    let top = j.here();
    j.e(a::cmp(d[1], s, Ariwpo(r[0])));
    j.db(cc, d[0], top);
    // key - element
    let m = match s { Byte => 0xFFu32, Word => 0xFFFF, Long => !0 };
    let mut i = 0;
    let mut cnt = n as u16 - 1;
    loop {
        let e = get(&x, i, s);
        i += 1;
        let (ku, eu) = (key & m, e & m);
        let (ks, es) = (sext(key, s) as i64, sext(e, s) as i64);
        let diff = ku.wrapping_sub(eu) & m;
        let neg = diff & (m ^ m >> 1) != 0;
        let v = neg != (ks < es);
        let hit = match ci { 2 => ku > eu, 3 => ku <= eu, 4 => ku >= eu, 5 => ku < eu, 6 => ku != eu, 7 => ku == eu, 8 => !v, 9 => v, 10 => !neg, 11 => neg, 12 => ks >= es, 13 => ks < es, 14 => ks > es, _ => ks <= es };
        if hit { break; }
        cnt = cnt.wrapping_sub(1);
        if cnt == 0xFFFF { break; }
    }
    j.want_d.push((d[0], 0x5A5A_0000 | cnt as u32));
    j.want_a.push((r[0], px + (i * len(s)) as u32));
    j.key = n as u64 | (ci as u64) << 8 | (len(s) as u64) << 12 | (i as u64) << 16;
}

// 32 by 32 bit products and quotients, matrix products, square roots.
fn wide(j: &mut Job, rng: &mut Rng) {
    let d = j.d;
    let (x, y) = (rng.operand(), rng.operand());
    match rng.below(3) {
        0 => {
            j.name = "product-64";
            // d0:d1 = x*y from four partial products.
            j.mv(Long, Drd(d[2]), Immediate(x));
            j.mv(Long, Drd(d[3]), Immediate(y));
            j.mv(Word, Drd(d[1]), Drd(d[2]));
            j.e(a::mulu(d[1], Drd(d[3])));
            j.mv(Word, Drd(d[4]), Drd(d[2]));
            j.e1(a::swap(d[3]));
            j.e(a::mulu(d[4], Drd(d[3])));
            j.e1(a::swap(d[2]));
            j.mv(Word, Drd(d[0]), Drd(d[2]));
            j.e(a::mulu(d[0], Drd(d[3])));
            j.e1(a::swap(d[3]));
            j.mv(Word, Drd(d[5]), Drd(d[2]));
            j.e(a::mulu(d[5], Drd(d[3])));
            // middle sum in d4, its carry into the top half
            j.e(a::add(d[4], DstReg, Long, Drd(d[5])));
            let f = j.bcc_fwd(Cc::CC);
            j.e(a::addi(Long, Drd(d[0]), 0x1_0000));
            j.here_is(f);
            j.e1(a::moveq(d[6], 0));
            j.e1(a::swap(d[4]));
            j.mv(Word, Drd(d[6]), Drd(d[4]));
            j.e(a::clr(Word, Drd(d[4])));
            j.e(a::add(d[1], DstReg, Long, Drd(d[4])));
            j.e1(a::addx(d[0], Long, RegisterToRegister, d[6]));
            let p = x as u64 * y as u64;
            j.want_d.push((d[0], (p >> 32) as u32));
            j.want_d.push((d[1], p as u32));
        },
        1 => {
            j.name = "quotient-32";
            let y = if rng.bool() { y & 0xFFFF } else { y }.max(1);
            // Restoring division, one bit at a time.
            j.mv(Long, Drd(d[0]), Immediate(x));
            j.mv(Long, Drd(d[1]), Immediate(y));
            j.e1(a::moveq(d[2], 0));
            j.e1(a::moveq(d[3], 31));
            let top = j.here();
            j.e(a::add(d[0], DstReg, Long, Drd(d[0])));
            j.e1(a::addx(d[2], Long, RegisterToRegister, d[2]));
            // A carry out means the remainder is bigger for sure.
            let big = j.bcc_fwd(Cc::CS);
            j.e(a::cmp(d[2], Long, Drd(d[1])));
            let small = j.bcc_fwd(Cc::CS);
            j.here_is(big);
            j.e(a::sub(d[2], DstReg, Long, Drd(d[1])));
            j.e(a::addq(1, Byte, Drd(d[0])));
            j.here_is(small);
            j.dbra(d[3], top);
            j.want_d.push((d[0], x / y));
            j.want_d.push((d[2], x % y));
        },
        _ => {
            j.name = "square-root";
            j.mv(Long, Drd(d[0]), Immediate(x));
            j.e1(a::moveq(d[1], 0));
            j.mv(Long, Drd(d[2]), Immediate(0x4000_0000));
            let top = j.here();
            j.mv(Long, Drd(d[3]), Drd(d[1]));
            j.e(a::add(d[3], DstReg, Long, Drd(d[2])));
            j.e1(a::lsr(1, Right, Long, false, d[1] as u16));
            j.e(a::cmp(d[0], Long, Drd(d[3])));
            let f = j.bcc_fwd(Cc::CS);
            j.e(a::sub(d[0], DstReg, Long, Drd(d[3])));
            j.e(a::or(d[1], DstReg, Long, Drd(d[2])));
            j.here_is(f);
            j.e1(a::lsr(2, Right, Long, false, d[2] as u16));
            j.bcc(Cc::NE, top);
            let mut r = (x as f64).sqrt() as u64;
            while r * r > x as u64 { r -= 1; }
            while (r + 1) * (r + 1) <= x as u64 { r += 1; }
            j.want_d.push((d[1], r as u32));
            j.want_d.push((d[0], (x as u64 - r * r) as u32));
        },
    }
    j.key = (x as u64) << 32 | y as u64;
}

fn matrix(j: &mut Job, rng: &mut Rng) {
    j.name = "matrix";
    let (d, r) = (j.d, j.r);
    let n = rng.range(1, 4) as usize;
    let x: Vec<i16> = (0..n * n).map(|_| rng.operand() as i16).collect();
    let y: Vec<i16> = (0..n * n).map(|_| rng.operand() as i16).collect();
    let px = j.data(rng, x.iter().flat_map(|v| v.to_be_bytes()).collect());
    let py = j.data(rng, y.iter().flat_map(|v| v.to_be_bytes()).collect());
    let out = j.place(rng, 4 * (n * n) as u32);
    j.lea(r[0], px);
    j.lea(r[2], out);
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    let row = j.here();
    j.lea(r[1], py);
    j.mv(Word, Drd(d[1]), Immediate(n as u32 - 1));
    let col = j.here();
    j.e(a::movea(Long, r[3], Ard(r[0])));
    j.e(a::movea(Long, r[4], Ard(r[1])));
    j.e1(a::moveq(d[3], 0));
    j.mv(Word, Drd(d[2]), Immediate(n as u32 - 1));
    let dot = j.here();
    j.mv(Word, Drd(d[4]), Ariwpo(r[3]));
    j.e(a::muls(d[4], Ari(r[4])));
    j.e(a::adda(r[4], Word, Immediate(2 * n as u32)));
    j.e(a::add(d[3], DstReg, Long, Drd(d[4])));
    j.dbra(d[2], dot);
    j.mv(Long, Ariwpo(r[2]), Drd(d[3]));
    j.e(a::addq(2, Long, Ard(r[1])));
    j.dbra(d[1], col);
    j.e(a::lea(r[0], Ariwd(r[0], 2 * n as i16)));
    j.dbra(d[0], row);
    let mut v = Vec::new();
    for i in 0..n { for k in 0..n { let s = (0..n).fold(0i32, |s, m| s.wrapping_add(x[i * n + m] as i32 * y[m * n + k] as i32)); v.extend(s.to_be_bytes()); } }
    j.result(out, v);
    j.key = n as u64 ^ mix(x[0] as u64 ^ (y[0] as u64) << 16);
}

// A linked list is built, reversed and summed; a string is turned to upper case; bytes are interleaved with MOVEP.
fn lists(j: &mut Job, rng: &mut Rng) {
    let (d, r) = (j.d, j.r);
    match rng.below(4) {
        0 => {
            j.name = "list-reversal";
            let n = rng.range(1, 16) as usize;
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() { order.swap(i, rng.below(i as u64 + 1) as usize); }
            let px = j.place(rng, 8 * n as u32);
            let vals: Vec<u32> = (0..n).map(|_| rng.operand()).collect();
            let mut m = vec![0u8; 8 * n];
            let mut w = m.clone();
            for (i, &o) in order.iter().enumerate() {
                let next = order.get(i + 1).map_or(0, |x| px + 8 * *x as u32);
                let prev = if i == 0 { 0 } else { px + 8 * order[i - 1] as u32 };
                m[8 * o..8 * o + 4].copy_from_slice(&next.to_be_bytes());
                w[8 * o..8 * o + 4].copy_from_slice(&prev.to_be_bytes());
                m[8 * o + 4..8 * o + 8].copy_from_slice(&vals[o].to_be_bytes());
                w[8 * o + 4..8 * o + 8].copy_from_slice(&vals[o].to_be_bytes());
            }
            j.mem.push((px, m));
            j.lea(r[0], px + 8 * order[0] as u32);
            j.e(a::suba(r[1], Long, Ard(r[1])));
            j.e1(a::moveq(d[0], 0));
            let top = j.here();
            j.e(a::add(d[0], DstReg, Long, Ariwd(r[0], 4)));
            j.e(a::movea(Long, r[2], Ari(r[0])));
            j.mv(Long, Ari(r[0]), Ard(r[1]));
            j.e(a::movea(Long, r[1], Ard(r[0])));
            j.e(a::movea(Long, r[0], Ard(r[2])));
            j.e(a::cmpa(r[0], Word, Immediate(0)));
            j.bcc(Cc::NE, top);
            j.result(px, w);
            j.want_d.push((d[0], vals.iter().fold(0u32, |s, v| s.wrapping_add(*v))));
            j.want_a.push((r[1], px + 8 * order[n - 1] as u32));
            j.key = n as u64;
        },
        1 => {
            j.name = "upper-case";
            let n = rng.range(0, 40) as usize;
            let mut x: Vec<u8> = (0..n).map(|_| match rng.below(3) { 0 => rng.range(0x60, 0x7C) as u8, 1 => rng.range(1, 255) as u8, _ => rng.range(0x20, 0x7E) as u8 }).collect();
            x.push(0);
            let px = j.data(rng, x.clone());
            j.lea(r[0], px);
            let top = j.here();
            j.mv(Byte, Drd(d[0]), Ariwpo(r[0]));
            let end = j.bcc_fwd(Cc::EQ);
            j.e(a::cmpi(Byte, Drd(d[0]), 0x61));
            j.bcc(Cc::CS, top);
            j.e(a::cmpi(Byte, Drd(d[0]), 0x7A));
            j.bcc(Cc::HI, top);
            match rng.below(3) { 0 => j.e(a::andi(Byte, Ariwd(r[0], -1), 0xDF)), 1 => j.e(a::bclr_static(Ariwd(r[0], -1), 5)), _ => j.e(a::subi(Byte, Ariwd(r[0], -1), 0x20)) }
            j.bra(top);
            j.here_is(end);
            j.want_a.push((r[0], px + x.len() as u32));
            j.result(px, x.to_ascii_uppercase());
            j.key = n as u64 | 1 << 16;
        },
        2 => {
            j.name = "interleave";
            let n = rng.range(1, 12) as usize;
            let x = bytes_of(rng, 4 * n);
            let y = bytes_of(rng, 8 * n);
            let px = j.data(rng, x.clone());
            let out = j.data(rng, y.clone());
            let odd = rng.below(2) as usize;
            j.lea(r[0], px);
            j.lea(r[1], out + odd as u32);
            j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
            let top = j.here();
            j.mv(Long, Drd(d[1]), Ariwpo(r[0]));
            if rng.bool() { j.e(a::movep(d[1], RegisterToMemory, Long, r[1], 0)); }
            else { j.e(a::movep(d[1], RegisterToMemory, Word, r[1], 4)); j.e1(a::swap(d[1])); j.e(a::movep(d[1], RegisterToMemory, Word, r[1], 0)); j.e1(a::swap(d[1])); }
            j.e(a::movep(d[2], MemoryToRegister, Long, r[1], 0));
            j.e(a::cmp(d[1], Long, Drd(d[2])));
            let f = j.bcc_fwd(Cc::EQ);
            j.e1(a::illegal());
            j.here_is(f);
            j.e(a::addq(8, Word, Ard(r[1])));
            j.dbra(d[0], top);
            let mut v = y;
            for (i, b) in x.iter().enumerate() { v[2 * i + odd] = *b; }
            j.result(out, v);
            j.key = n as u64 | 2 << 16 | (odd as u64) << 20;
        },
        _ => {
            // Locks: TAS takes each byte once.
            j.name = "locks";
            let n = rng.range(1, 30) as usize;
            let x = bytes_of(rng, n);
            let px = j.data(rng, x.clone());
            j.lea(r[0], px);
            j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
            j.e1(a::moveq(d[1], 0));
            j.e1(a::moveq(d[2], 0));
            let top = j.here();
            j.e(a::tas(Ari(r[0])));
            let f = j.bcc_fwd(Cc::MI);
            j.e(a::addq(1, Long, Drd(d[1])));
            j.here_is(f);
            j.e(a::tas(Ariwpo(r[0])));
            let f = j.bcc_fwd(Cc::PL);
            j.e(a::addq(1, Long, Drd(d[2])));
            j.here_is(f);
            j.dbra(d[0], top);
            j.want_d.push((d[1], x.iter().filter(|b| **b < 0x80).count() as u32));
            j.want_d.push((d[2], n as u32));
            j.result(px, x.iter().map(|b| b | 0x80).collect());
            j.key = n as u64 | 3 << 16;
        },
    }
}

// Comparison of long numbers, signed and unsigned, through every condition.
fn compare(j: &mut Job, rng: &mut Rng) {
    j.name = "compare-long";
    let (d, r) = (j.d, j.r);
    let s = size(rng);
    let n = rng.range(1, 6) as usize;
    let x = bytes_of(rng, n * len(s));
    let mut y = if rng.bool() { x.clone() } else { bytes_of(rng, n * len(s)) };
    if rng.chance(1, 3) { let k = rng.below(y.len() as u64) as usize; y[k] = y[k].wrapping_add(1); }
    let (px, py) = (j.data(rng, x.clone()), j.data(rng, y.clone()));
    let out = j.place(rng, 14);
    // x - y on copies in registers, from the low end.
    j.lea(r[0], px + x.len() as u32);
    j.lea(r[1], py + y.len() as u32);
    j.mv(Word, Drd(d[0]), Immediate(n as u32 - 1));
    j.ccr(4);
    let top = j.here();
    j.e1(a::subx(r[0], s, MemoryToMemory, r[1]));
    j.dbra(d[0], top);
    j.flags(d[1]);
    j.lea(r[2], out);
    for c in &crate::asmapi::CONDS[2..] {
        j.e(a::moveccr(Drd(d[1])));
        j.e(a::scc(*c, Ariwpo(r[2])));
    }
    let (v, _) = sub_be(&x, &y, false);
    let less_u = x < y;
    let eq = x == y;
    let key = |b: &[u8]| { let mut k = b.to_vec(); k[0] ^= 0x80; k };
    let less_s = key(&x) < key(&y);
    let neg = v[0] & 0x80 != 0;
    let over = neg != less_s;
    let res = [!less_u && !eq, less_u || eq, !less_u, less_u, !eq, eq, !over, over, !neg, neg, !less_s, less_s, !less_s && !eq, less_s || eq];
    j.result(out, res.iter().map(|b| if *b { 0xFF } else { 0 }).collect());
    j.result(px, v);
    j.key = n as u64 | (len(s) as u64) << 8 | (less_u as u64) << 12 | (less_s as u64) << 13 | (eq as u64) << 14;
}

const GENS: [fn(&mut Job, &mut Rng); 18] = [multi, multi_reg, decimal, long_shift, reg_shift, scale, tables, copies, sort, gcd, crc, recursion, digits, bits, machine, search, wide, matrix];
const MORE: [fn(&mut Job, &mut Rng); 3] = [lists, compare, sieve];

fn job(rng: &mut Rng) -> Job {
    let mut c = gen_core(rng, None, 0);
    let base = 0x0002_0000 + 2 * rng.below(0x8000) as u32;
    c.pc = base;
    c.sr &= !T;
    c.ssp = 0x0008_0000 + 2 * rng.below(0x4000) as u32;
    c.usp = 0x000A_0000 + 2 * rng.below(0x4000) as u32;
    let mut d = [0, 1, 2, 3, 4, 5, 6, 7];
    let mut r = [0, 1, 2, 3, 4, 5, 6];
    for i in (1..8).rev() { d.swap(i, rng.below(i as u64 + 1) as usize); }
    for i in (1..7).rev() { r.swap(i, rng.below(i as u64 + 1) as usize); }
    let mut j = Job { name: "", w: Vec::new(), base, d, r, c, mem: Vec::new(), want: Vec::new(), free: Vec::new(), want_d: Vec::new(), want_a: Vec::new(), key: 0 };
    let k = rng.below((GENS.len() + MORE.len()) as u64) as usize;
    if k < GENS.len() { GENS[k](&mut j, rng) } else { MORE[k - GENS.len()](&mut j, rng) }
    j.e1(a::trap(15));
    j
}

const MAX_STEPS: u64 = 200_000;

/// Runs a prepared machine to the final TRAP; the number of steps or calls, or what went wrong.
fn finish<K: Kind>(d: &mut Dut<K>, how: u64, rng: &mut Rng, end: u32) -> Result<u64, String> {
    let mut n = 0u64;
    d.bus.fuel = d.bus.accesses + 2_000_000;
    d.bus.logging = false;
    let ended = |v: Option<u8>, d: &Dut<K>| -> Option<Result<(), String>> {
        match v {
            None => None,
            Some(47) if d.cpu.regs.pc.0 == end => Some(Ok(())),
            Some(v) => Some(Err(format!("exception {v} at PC {:08X}", d.cpu.regs.pc.0))),
        }
    };
    loop {
        n += 1;
        if n > MAX_STEPS { return Err("the program does not end".into()); }
        let v = match how {
            0 | 1 => { let o = d.step(if how == 0 { Via::Exc } else { Via::DisExc }); if let Some(p) = o.panicked { return Err(p); } o.vector },
            2 | 3 => {
                let o = d.step(if how == 2 { Via::Own } else { Via::DisOwn });
                if let Some(p) = o.panicked { return Err(p); }
                if d.cpu.stop { return Ok(n); }
                None
            },
            4 => drive(d, Drive::UntilExc(rng.range(1, 3000) as usize))?.1,
            5 => { drive(d, Drive::Cycle(rng.range(1, 3000) as usize))?; if d.cpu.stop { return Ok(n); } None },
            _ => drive(d, Drive::Loop)?.1,
        };
        if let Some(r) = ended(v, d) { return r.map(|_| n); }
        if how == 6 { return Err("the loop ended without an exception".into()); }
    }
}

fn algo_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let mut names: std::collections::BTreeMap<&'static str, u64> = Default::default();
    let (mut steps, mut calls) = (0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut j = job(&mut rng);
        *names.entry(j.name).or_default() += 1;
        let mut bus = Bus::new(rng.u64());
        let end = j.base + 2 * j.w.len() as u32;
        for (i, w) in j.w.iter().enumerate() { bus.poke16(j.base + 2 * i as u32, *w); }
        for (at, m) in &j.mem { for (i, b) in m.iter().enumerate() { bus.poke8(at.wrapping_add(i as u32), *b); } }
        // Every vector leads to a handler that stops: TRAP #15 is the end, the others are told apart by the saved PC.
        for v in 2..256u32 { bus.poke32(4 * v, 0xE000); }
        bus.poke16(0xE000, 0x4E72); bus.poke16(0xE002, 0x2700);
        bus.split = rng.chance(1, 6);
        let start = bus.clone();
        let how = rng.below(7);
        let mut d = Dut::<K>::new(bus);
        d.set_core(&j.c);
        ctx.eval(mix(mix(j.key) ^ how << 3 ^ K::ID) ^ mix(j.name.len() as u64 ^ (j.name.as_bytes()[j.name.len() / 2] as u64) << 8));
        let mut bad: Vec<(String, String)> = Vec::new();
        match finish(&mut d, how, &mut rng, end) {
            Err(e) => bad.push(("run".into(), e)),
            Ok(n) => {
                if how < 4 { steps += n } else { calls += n }
                let c = d.core();
                let mut stack = vec![(j.c.ssp - 0x1000, 0x1000u32), (j.c.usp - 0x1000, 0x1000)];
                if matches!(how, 2 | 3 | 5) {
                    // The machine is in the handler of TRAP #15: its frame holds the return address.
                    let at = d.bus.peek32(c.ssp.wrapping_add(2));
                    let flen = if K::FMT == Fmt::M68k { 6 } else { 8 };
                    if at != end { bad.push(("run".into(), format!("ended by an exception at {at:08X} instead of the last instruction"))); }
                    if c.ssp != j.c.ssp - flen { bad.push(("stack".into(), format!("SSP {:08X}, expected {:08X}", c.ssp, j.c.ssp - flen))); }
                } else if c.ssp != j.c.ssp { bad.push(("stack".into(), format!("SSP {:08X}, expected {:08X}", c.ssp, j.c.ssp))); }
                if c.usp != j.c.usp { bad.push(("stack".into(), format!("USP {:08X}, expected {:08X}", c.usp, j.c.usp))); }
                for (r, v) in &j.want_d { if c.d[*r as usize] != *v { bad.push(("register".into(), format!("D{r} {:08X}, expected {v:08X}", c.d[*r as usize]))); } }
                for (r, v) in &j.want_a { if c.a[*r as usize] != *v { bad.push(("register".into(), format!("A{r} {:08X}, expected {v:08X}", c.a[*r as usize]))); } }
                for (at, m) in &j.want {
                    let got: Vec<u8> = (0..m.len() as u32).map(|i| d.bus.peek8(at.wrapping_add(i))).collect();
                    if got != *m { bad.push(("memory".into(), format!("memory at {at:08X} holds {got:02X?}, expected {m:02X?}"))); }
                    stack.push((*at, m.len() as u32));
                }
                stack.extend(&j.free);
                for k in d.bus.overlay().keys() {
                    for x in [*k << 1, *k << 1 | 1] {
                        if d.bus.peek8(x) != start.peek8(x) && !stack.iter().any(|s| x.wrapping_sub(s.0) < s.1) && bad.len() < 4 { bad.push(("stray".into(), format!("{x:08X} changed from {:02X} to {:02X}", start.peek8(x), d.bus.peek8(x)))); }
                    }
                }
            },
        }
        if !bad.is_empty() {
            let text: Vec<String> = j.w.iter().map(|w| format!("{w:04X}")).collect();
            let msg = bad.iter().map(|b| b.1.clone()).collect::<Vec<_>>().join("; ");
            ctx.violation(it, &format!("{}:{}", j.name, bad[0].0), format!("{} {} ({}): {msg}; program at {:08X}: {}; start {:?}", K::NAME, j.name, ["interpreter_exception", "disassembler_interpreter_exception", "interpreter", "disassembler_interpreter", "cycle_until_exception", "cycle", "loop_until_exception_stop"][how as usize], j.base, text.join(" "), j.c));
        }
        if it % 211 == 5 { ctx.sample(|| format!("{} {}: {} words, results D{:X?} A{:X?}", K::NAME, j.name, j.w.len(), j.want_d, j.want_a)); }
        j.w.clear();
    }
    for (k, v) in names { ctx.count(k, v); }
    ctx.count("single steps", steps);
    ctx.count("driver calls", calls);
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let k = if thorough { 25 } else { 1 };
    Some(match p {
        "C37" => (opts("C37", "distinct (algorithm, parameters, way of running, CPU type) whose complete result was compared with the mathematical one", 20_000),
            vec![work("algorithms", 64, 200 * k, |c, u, i| kinds!(u, algo_unit(c, u, i)))]),
        _ => return None,
    })
}
