//! Reference machine: the MC68000 programmer's model, exception processing and the published timing tables, written
//! from the manuals and the crate's documentation, sharing no code with the crate. It is the oracle of the lockstep
//! monitors.
use crate::bus::Bus;
use crate::isa68k::*;
use crate::timing::Timing;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt { M68k, Scc }

pub const X: u16 = 16;
pub const N: u16 = 8;
pub const Z: u16 = 4;
pub const V: u16 = 2;
pub const C: u16 = 1;
pub const S: u16 = 0x2000;
pub const T: u16 = 0x8000;
pub const SR_MASK: u16 = 0xA71F;

pub const ACCESS: u8 = 2;
pub const ADDRESS: u8 = 3;

type R<X> = Result<X, u8>;

pub fn is_int(v: u8) -> bool { (25..=31).contains(&v) || (57..=63).contains(&v) }

/// Bigger means its handler runs earlier.
pub fn prio(v: u8) -> u32 {
    match v {
        0 => 1000,
        3 => 900,
        2 => 800,
        9 => 700,
        25..=31 | 57..=63 => 600 + (v & 7) as u32,
        24 | 64..=255 => 600,
        4 => 500,
        8 => 400,
        _ => 0,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Core {
    pub d: [u32; 8],
    pub a: [u32; 7],
    pub usp: u32,
    pub ssp: u32,
    pub pc: u32,
    pub sr: u16,
    pub stop: bool,
}

impl Core {
    pub fn zero() -> Core { Core { d: [0; 8], a: [0; 7], usp: 0, ssp: 0, pc: 0, sr: 0x2700, stop: false } }
    pub fn sup(&self) -> bool { self.sr & S != 0 }
    pub fn areg(&self, r: u8) -> u32 { if r < 7 { self.a[r as usize] } else if self.sup() { self.ssp } else { self.usp } }
    pub fn areg_mut(&mut self, r: u8) -> &mut u32 { if r < 7 { &mut self.a[r as usize] } else if self.sup() { &mut self.ssp } else { &mut self.usp } }
    /// Names of the fields in which two cores differ.
    pub fn diff(&self, o: &Core) -> String {
        let mut s = String::new();
        for i in 0..8 { if self.d[i] != o.d[i] { s += &format!(" D{i} {:08X}/{:08X}", self.d[i], o.d[i]); } }
        for i in 0..7 { if self.a[i] != o.a[i] { s += &format!(" A{i} {:08X}/{:08X}", self.a[i], o.a[i]); } }
        if self.usp != o.usp { s += &format!(" USP {:08X}/{:08X}", self.usp, o.usp); }
        if self.ssp != o.ssp { s += &format!(" SSP {:08X}/{:08X}", self.ssp, o.ssp); }
        if self.pc != o.pc { s += &format!(" PC {:08X}/{:08X}", self.pc, o.pc); }
        if self.sr != o.sr { s += &format!(" SR {:04X}/{:04X}", self.sr, o.sr); }
        if self.stop != o.stop { s += &format!(" stop {}/{}", self.stop, o.stop); }
        s
    }
}

/// What one step did, and which of its effects the manual leaves undefined.
#[derive(Clone, Debug, Default)]
pub struct Report {
    pub cycles: usize,
    pub vector: Option<u8>,
    /// Vectors whose exception processing completed in this step, in processing order.
    pub taken: Vec<u8>,
    /// Vectors whose processing was attempted and failed, with the failure.
    pub failed: Vec<(u8, u8)>,
    pub reset: bool,
    /// A reset vector could not be read, or a bus fault occurred while processing one: the processor halts.
    pub halt: bool,
    /// CCR bits left undefined.
    pub undef_ccr: u16,
    /// Data register bits left undefined.
    pub undef_d: Option<(u8, u32)>,
    /// Memory bytes whose value is unspecified.
    pub loose: Vec<u32>,
    /// Address registers that may hold any value after a fault.
    pub loose_a: u8,
    pub loose_d: u8,
    pub loose_pc: bool,
    pub loose_ssp: bool,
    /// Frames whose entry failed half way: which of their bytes were written is not specified.
    pub partial: Vec<(u32, u32)>,
    /// Nothing is specified about this step.
    pub unspec: bool,
    /// The opcode word was fetched; extension words could not all be fetched.
    pub fetched: bool,
    pub ext_fault: bool,
    pub ins: Option<Ins>,
    pub op: u16,
    /// Address of the executed instruction and the address right after its last word.
    pub at: u32,
    pub next: u32,
    /// Index in the bus log where the instruction (opcode fetch) starts.
    pub log_mark: usize,
    /// State right before the opcode fetch, after exception processing.
    pub woke: bool,
    /// Source operand of a multiply, divide or check.
    pub src: Option<u32>,
}

#[derive(Clone, Copy, Debug)]
struct Opnd { ea: Ea, ext: u32, base: u32, sz: Sz, addr: Option<u32> }

#[derive(Clone)]
pub struct Model {
    pub c: Core,
    pub pend: [u64; 4],
    pub op: u16,
    pub fmt: Fmt,
    pub t: &'static Timing,
    pub bus: Bus,
    pub r: Report,
    /// Ignore odd addresses (used to compute what the fault-free instruction would have done).
    pub lenient: bool,
    /// Processor state when the instruction of the last step started.
    pub before: Core,
}

impl Model {
    pub fn new(fmt: Fmt, t: &'static Timing, bus: Bus) -> Model {
        Model { c: Core::zero(), pend: [0; 4], op: 0xFFFF, fmt, t, bus, r: Report::default(), lenient: false, before: Core::zero() }
    }
    pub fn pending(&self, v: u8) -> bool { self.pend[(v >> 6) as usize] >> (v & 63) & 1 != 0 }
    pub fn any_pending(&self) -> bool { self.pend != [0; 4] }
    pub fn pending_list(&self) -> Vec<u8> { (0..=255u8).filter(|v| self.pending(*v)).collect() }
    fn set_pend(&mut self, v: u8, on: bool) { let m = 1u64 << (v & 63); if on { self.pend[(v >> 6) as usize] |= m } else { self.pend[(v >> 6) as usize] &= !m } }
    pub fn masked(&self, v: u8) -> bool { is_int(v) && v & 7 != 7 && (v & 7) as u16 <= self.c.sr >> 8 & 7 }
    /// External request.
    pub fn request(&mut self, v: u8) {
        if v == 0 || v == 9 || is_int(v) && !self.masked(v) { self.c.stop = false; }
        self.set_pend(v, true);
    }

    // ---- memory
    fn odd(&self, a: u32) -> R<u32> { if a & 1 != 0 && !self.lenient { Err(ADDRESS) } else { Ok(a) } }
    fn rd(&mut self, a: u32, sz: Sz) -> R<u32> {
        match sz {
            Sz::B => self.bus.r8(a).map(|x| x as u32).ok_or(ACCESS),
            Sz::W => { self.odd(a)?; self.bus.r16(a).map(|x| x as u32).ok_or(ACCESS) },
            Sz::L => { self.odd(a)?; self.bus.r32(a).ok_or(ACCESS) },
        }
    }
    fn wr(&mut self, a: u32, sz: Sz, v: u32) -> R<()> {
        match sz {
            Sz::B => self.bus.w8(a, v as u8).ok_or(ACCESS),
            Sz::W => { self.odd(a)?; self.bus.w16(a, v as u16).ok_or(ACCESS) },
            Sz::L => { self.odd(a)?; self.bus.w32(a, v).ok_or(ACCESS) },
        }
    }
    fn push(&mut self, sz: Sz, v: u32) -> R<()> {
        let sp = self.c.areg_mut(7);
        *sp = sp.wrapping_sub(sz.bytes());
        let a = *sp;
        self.wr(a, sz, v)
    }
    fn pop(&mut self, sz: Sz) -> R<u32> {
        let sp = self.c.areg_mut(7);
        let a = *sp;
        *sp = sp.wrapping_add(sz.bytes());
        self.rd(a, sz)
    }
    fn loose(&mut self, a: u32, n: u32) { for i in 0..n { self.r.loose.push(a.wrapping_add(i)); } }

    // ---- exceptions
    fn do_reset(&mut self) -> bool {
        let (s, p) = (self.bus.r32(0), self.bus.r32(4));
        match (s, p) {
            (Some(s), Some(p)) => {
                self.c.ssp = s;
                self.c.pc = p;
                self.c.sr = self.c.sr & 0x1F | 0x2700;
                self.c.stop = false;
                true
            },
            _ => false,
        }
    }
    fn enter(&mut self, v: u8) -> R<usize> {
        let sr = self.c.sr;
        self.c.sr = sr & !T | S;
        if is_int(v) { self.c.sr = self.c.sr & !0x0700 | ((v & 7) as u16) << 8; }
        let group0 = v == 2 || v == 3;
        let pc = self.c.pc;
        match self.fmt {
            Fmt::M68k => {
                self.push(Sz::L, pc)?;
                self.push(Sz::W, sr as u32)?;
                if group0 {
                    // Instruction register, access address, function code.
                    let op = self.op as u32;
                    self.push(Sz::W, op)?;
                    let a = self.c.ssp.wrapping_sub(6);
                    self.loose(a, 6);
                    self.push(Sz::L, 0)?;
                    self.push(Sz::W, 0)?;
                }
            },
            Fmt::Scc => {
                if group0 {
                    let a = self.c.ssp.wrapping_sub(26);
                    self.loose(a, 26);
                    for z in [Sz::W, Sz::W, Sz::W, Sz::L, Sz::L, Sz::L, Sz::W, Sz::W, Sz::W, Sz::W] { self.push(z, 0)?; }
                    self.push(Sz::W, 0xF000 | v as u32 * 4)?;
                } else {
                    self.push(Sz::W, v as u32 * 4)?;
                }
                self.push(Sz::L, pc)?;
                self.push(Sz::W, sr as u32)?;
            },
        }
        self.c.pc = self.bus.r32(v as u32 * 4).ok_or(ACCESS)?;
        Ok(self.t.vectors[v as usize])
    }
    pub fn frame_len(&self, v: u8) -> u32 {
        match (self.fmt, v == 2 || v == 3) { (Fmt::M68k, false) => 6, (Fmt::M68k, true) => 14, (Fmt::Scc, false) => 8, (Fmt::Scc, true) => 34 }
    }
    fn process(&mut self) -> usize {
        let mut list: Vec<u8> = self.pending_list().into_iter().filter(|v| !self.masked(*v)).collect();
        if list.contains(&0) {
            self.pend = [0; 4];
            self.r.reset = true;
            if !self.do_reset() { self.r.halt = true; }
            return self.t.VECTOR_RESET;
        }
        for v in &list { self.set_pend(*v, false); }
        list.sort_by_key(|v| prio(*v));
        let mut cyc = 0;
        for v in list {
            let ssp = self.c.ssp;
            match self.enter(v) {
                Ok(c) => { cyc += c; self.r.taken.push(v); },
                Err(e) => {
                    self.r.failed.push((v, e));
                    self.r.loose_ssp = true;
                    let n = self.frame_len(v);
                    self.r.partial.push((ssp.wrapping_sub(n), n));
                    if e == ACCESS && v == ACCESS { self.r.halt = true; return cyc; }
                    let p = if e == ACCESS && is_int(v) { 24 } else { e };
                    self.set_pend(p, true);
                },
            }
        }
        cyc
    }

    // ---- one step
    /// Executes one step of an exception-returning stepping function.
    pub fn step(&mut self) {
        let taken = { let mut t = std::mem::take(&mut self.r.taken); t.clear(); t };
        let loose = { let mut t = std::mem::take(&mut self.r.loose); t.clear(); t };
        self.r = Report { taken, loose, ..Default::default() };
        self.before = self.c;
        if self.c.stop {
            let wake = self.pending_list().iter().any(|v| is_int(*v) && !self.masked(*v));
            if !wake { return; }
            self.c.stop = false;
            self.r.woke = true;
        }
        if self.any_pending() {
            self.r.cycles += self.process();
            if self.r.halt { return; }
        }
        self.before = self.c;
        self.r.log_mark = self.bus.log.len();
        let at = self.c.pc;
        self.r.at = at;
        self.r.next = at;
        if at & 1 != 0 { self.r.vector = Some(ADDRESS); self.r.loose_pc = true; return; }
        let op = match self.bus.r16(at) { Some(o) => o, None => { self.c.pc = at.wrapping_add(2); self.r.vector = Some(ACCESS); self.r.loose_pc = true; return; } };
        self.r.fetched = true;
        self.c.pc = at.wrapping_add(2);
        self.op = op;
        self.r.op = op;
        let ins = decode(op);
        self.r.ins = ins;
        let trace = self.c.sr & T != 0;
        let res = match ins {
            None => Err(match op >> 12 { 0xA => 10, 0xF => 11, _ => 4 }),
            Some(i) => self.exec(&i, op),
        };
        match res {
            Ok(c) => {
                self.r.cycles += c;
                if trace && !ins.unwrap().privileged() { self.r.vector = Some(9); }
            },
            Err(v) => {
                if matches!(v, 4 | 8 | 10 | 11) { self.c.pc = at; }
                if v == ACCESS || v == ADDRESS { self.r.loose_pc = true; self.r.undef_ccr = 0x1F; }
                self.r.vector = Some(v);
            },
        }
    }
    /// Executes one step of a self-processing stepping function.
    pub fn step_self(&mut self) {
        self.step();
        if let Some(v) = self.r.vector { self.request(v); }
    }

    // ---- operands
    fn ext(&mut self) -> R<u16> {
        let a = self.c.pc;
        match self.bus.r16(a) {
            Some(w) => { self.c.pc = a.wrapping_add(2); Ok(w) },
            None => { self.r.ext_fault = true; Err(ACCESS) },
        }
    }
    fn extl(&mut self) -> R<u32> { Ok((self.ext()? as u32) << 16 | self.ext()? as u32) }
    fn opnd(&mut self, ea: Ea, sz: Sz) -> R<Opnd> {
        let base = self.c.pc;
        let ext = match ea_words(ea, sz) { 0 => 0, 1 => self.ext()? as u32, _ => self.extl()? };
        Ok(Opnd { ea, ext, base, sz, addr: None })
    }
    fn index(&self, w: u32) -> u32 {
        let r = (w >> 12 & 7) as u8;
        let v = if w & 0x8000 != 0 { self.c.areg(r) } else { self.c.d[r as usize] };
        let v = if w & 0x0800 != 0 { v } else { v as i16 as i32 as u32 };
        v.wrapping_add(w as i8 as i32 as u32)
    }
    fn step_size(r: u8, sz: Sz) -> u32 { if r == 7 && sz == Sz::B { 2 } else { sz.bytes() } }
    /// Address of a memory operand without side effect, for control addressing modes.
    fn control(&self, o: &Opnd) -> u32 {
        match o.ea {
            Ea::Ind(r) => self.c.areg(r),
            Ea::Disp(r) => self.c.areg(r).wrapping_add(o.ext as i16 as i32 as u32),
            Ea::Idx(r) => self.c.areg(r).wrapping_add(self.index(o.ext)),
            Ea::AbsW => o.ext as i16 as i32 as u32,
            Ea::AbsL => o.ext,
            Ea::PcD => o.base.wrapping_add(o.ext as i16 as i32 as u32),
            Ea::PcI => o.base.wrapping_add(self.index(o.ext)),
            _ => unreachable!("not a control mode"),
        }
    }
    /// Address of a memory operand, its side effect and its time; computed once.
    fn addr(&mut self, o: &mut Opnd, t: &mut usize) -> u32 {
        if let Some(a) = o.addr { return a; }
        let tt = self.t;
        *t += match o.ea {
            Ea::Ind(_) => tt.EA_ARI, Ea::Post(_) => tt.EA_ARIWPO, Ea::Pre(_) => tt.EA_ARIWPR, Ea::Disp(_) => tt.EA_ARIWD, Ea::Idx(_) => tt.EA_ARIWI8,
            Ea::AbsW => tt.EA_ABSSHORT, Ea::AbsL => tt.EA_ABSLONG, Ea::PcD => tt.EA_PCIWD, Ea::PcI => tt.EA_PCIWI8, _ => unreachable!(),
        };
        if o.sz == Sz::L { *t += 4; }
        let a = match o.ea {
            Ea::Post(r) => { let n = Self::step_size(r, o.sz); let p = self.c.areg_mut(r); let a = *p; *p = a.wrapping_add(n); self.r.loose_a |= 1 << r; a },
            Ea::Pre(r) => { let n = Self::step_size(r, o.sz); let p = self.c.areg_mut(r); *p = p.wrapping_sub(n); let a = *p; self.r.loose_a |= 1 << r; a },
            _ => self.control(o),
        };
        o.addr = Some(a);
        a
    }
    fn get(&mut self, o: &mut Opnd, t: &mut usize) -> R<u32> {
        match o.ea {
            Ea::D(r) => Ok(self.c.d[r as usize] & o.sz.mask()),
            Ea::A(r) => Ok(self.c.areg(r) & o.sz.mask()),
            Ea::Imm => { *t += self.t.EA_IMMEDIATE + if o.sz == Sz::L { 4 } else { 0 }; Ok(o.ext & o.sz.mask()) },
            _ => { let a = self.addr(o, t); self.rd(a, o.sz) },
        }
    }
    fn set_d(&mut self, r: u8, sz: Sz, v: u32) { let d = &mut self.c.d[r as usize]; *d = *d & !sz.mask() | v & sz.mask(); }
    fn put(&mut self, o: &mut Opnd, t: &mut usize, v: u32) -> R<()> {
        match o.ea {
            Ea::D(r) => { self.set_d(r, o.sz, v); Ok(()) },
            _ => { let a = self.addr(o, t); self.wr(a, o.sz, v & o.sz.mask()) },
        }
    }

    // ---- flags
    fn ccr(&mut self, mask: u16, v: u16) { self.c.sr = self.c.sr & !mask | v & mask; }
    fn nz(sz: Sz, v: u32) -> u16 { (if v & sz.msb() != 0 { N } else { 0 }) | if v & sz.mask() == 0 { Z } else { 0 } }
    fn logic_flags(&mut self, sz: Sz, v: u32) { self.ccr(N | Z | V | C, Self::nz(sz, v)); }
    /// dst + src + x with all flags; returns (result, XNZVC).
    fn add_f(sz: Sz, dst: u32, src: u32, x: u32) -> (u32, u16) {
        let (m, b) = (sz.mask() as u64, sz.msb());
        let full = (dst as u64 & m) + (src as u64 & m) + x as u64;
        let r = (full & m) as u32;
        let mut f = Self::nz(sz, r);
        if full > m { f |= X | C; }
        // Overflow: both operands have the same sign and the result has the other.
        if (dst & b) == (src & b) && (dst & b) != (r & b) { f |= V; }
        (r, f)
    }
    /// dst - src - x.
    fn sub_f(sz: Sz, dst: u32, src: u32, x: u32) -> (u32, u16) {
        let (m, b) = (sz.mask() as i64, sz.msb());
        let full = (dst as i64 & m) - (src as i64 & m) - x as i64;
        let r = (full & m) as u32;
        let mut f = Self::nz(sz, r);
        if full < 0 { f |= X | C; }
        if (dst & b) != (src & b) && (dst & b) != (r & b) { f |= V; }
        (r, f)
    }
    fn x(&self) -> u32 { (self.c.sr & X != 0) as u32 }
    /// Flags of the extended forms: Z only ever cleared.
    fn ext_flags(&mut self, f: u16) { let z = if f & Z != 0 { self.c.sr & Z } else { 0 }; self.ccr(0x1F, f & !Z | z); }
    pub fn cond(&self, cc: u8) -> bool { cond_of(self.c.sr, cc) }

    fn alu(&mut self, k: Alu, sz: Sz, dst: u32, src: u32) -> u32 {
        match k {
            Alu::Add => { let (r, f) = Self::add_f(sz, dst, src, 0); self.ccr(0x1F, f); r },
            Alu::Sub => { let (r, f) = Self::sub_f(sz, dst, src, 0); self.ccr(0x1F, f); r },
            Alu::Cmp => { let (r, f) = Self::sub_f(sz, dst, src, 0); self.ccr(0x0F, f); r },
            Alu::And => { let r = dst & src & sz.mask(); self.logic_flags(sz, r); r },
            Alu::Or => { let r = (dst | src) & sz.mask(); self.logic_flags(sz, r); r },
            Alu::Eor => { let r = (dst ^ src) & sz.mask(); self.logic_flags(sz, r); r },
        }
    }
    fn sr_op(&self, k: Alu, v: u16, w: u16) -> u16 { match k { Alu::And => v & w, Alu::Or => v | w, _ => v ^ w } }
    fn sup(&self) -> R<()> { if self.c.sup() { Ok(()) } else { Err(8) } }

    fn bcd(&mut self, dst: u32, src: u32, sub: bool, at: Option<u32>, reg: Option<u8>) -> u32 {
        let ok = |v: u32| v & 15 <= 9 && v >> 4 & 15 <= 9;
        self.r.undef_ccr |= N | V;
        if !ok(dst) || !ok(src) {
            self.r.undef_ccr = 0x1F;
            if let Some(a) = at { self.loose(a, 1); }
            if let Some(r) = reg { self.r.undef_d = Some((r, 0xFF)); }
        }
        let (d, s) = ((dst >> 4 & 15) as i32 * 10 + (dst & 15) as i32, (src >> 4 & 15) as i32 * 10 + (src & 15) as i32);
        let raw = if sub { d - s - self.x() as i32 } else { d + s + self.x() as i32 };
        let carry = raw < 0 || raw > 99;
        let r = raw.rem_euclid(100) as u32;
        let res = (r / 10) << 4 | r % 10;
        let z = if res == 0 { self.c.sr & Z } else { 0 };
        self.ccr(X | Z | C, z | if carry { X | C } else { 0 });
        res
    }

    fn shift(&mut self, k: Sh, left: bool, sz: Sz, cnt: u32, v: u32) -> u32 {
        let (m, b) = (sz.mask(), sz.msb());
        let mut v = v & m;
        let mut x = self.c.sr & X != 0;
        let mut c = k == Sh::Rox && x;
        let mut o = false;
        for _ in 0..cnt {
            if left {
                let out = v & b != 0;
                let inb = match k { Sh::As | Sh::Ls => false, Sh::Ro => out, Sh::Rox => x };
                v = v << 1 & m | inb as u32;
                c = out;
                if k == Sh::As && (v & b != 0) != out { o = true; }
            } else {
                let out = v & 1 != 0;
                let inb = match k { Sh::As => v & b != 0, Sh::Ls => false, Sh::Ro => out, Sh::Rox => x };
                v = v >> 1 | if inb { b } else { 0 };
                c = out;
            }
            if k != Sh::Ro { x = c; }
        }
        let f = Self::nz(sz, v) | if c { C } else { 0 } | if o { V } else { 0 } | if x { X } else { 0 };
        self.ccr(0x1F, f);
        v
    }

    // ---- instructions
    fn exec(&mut self, i: &Ins, op: u16) -> R<usize> {
        let t = self.t;
        let rm = |reg: bool, l: bool, rbw: usize, rl: usize, mbw: usize, ml: usize| if reg { if l { rl } else { rbw } } else if l { ml } else { mbw };
        match *i {
            Ins::CcrImm(k) => {
                let w = self.ext()?;
                let n = self.sr_op(k, self.c.sr, w);
                self.ccr(0x1F, n);
                Ok(match k { Alu::And => t.ANDICCR, Alu::Or => t.ORICCR, _ => t.EORICCR })
            },
            Ins::SrImm(k) => {
                let w = self.ext()?;
                self.sup()?;
                self.c.sr = self.sr_op(k, self.c.sr, w) & SR_MASK;
                Ok(match k { Alu::And => t.ANDISR, Alu::Or => t.ORISR, _ => t.EORISR })
            },
            Ins::AluImm { k, sz, ea } => {
                let imm = if sz == Sz::L { self.extl()? } else { self.ext()? as u32 & sz.mask() };
                let mut o = self.opnd(ea, sz)?;
                let (r, l) = (matches!(ea, Ea::D(_)), sz == Sz::L);
                let mut c = match k {
                    Alu::Add => rm(r, l, t.ADDI_REG_BW, t.ADDI_REG_L, t.ADDI_MEM_BW, t.ADDI_MEM_L),
                    Alu::Sub => rm(r, l, t.SUBI_REG_BW, t.SUBI_REG_L, t.SUBI_MEM_BW, t.SUBI_MEM_L),
                    Alu::And => rm(r, l, t.ANDI_REG_BW, t.ANDI_REG_L, t.ANDI_MEM_BW, t.ANDI_MEM_L),
                    Alu::Or => rm(r, l, t.ORI_REG_BW, t.ORI_REG_L, t.ORI_MEM_BW, t.ORI_MEM_L),
                    Alu::Eor => rm(r, l, t.EORI_REG_BW, t.EORI_REG_L, t.EORI_MEM_BW, t.EORI_MEM_L),
                    Alu::Cmp => rm(r, l, t.CMPI_REG_BW, t.CMPI_REG_L, t.CMPI_MEM_BW, t.CMPI_MEM_L),
                };
                let v = self.get(&mut o, &mut c)?;
                let res = self.alu(k, sz, v, imm);
                if k != Alu::Cmp { self.put(&mut o, &mut c, res)?; }
                Ok(c)
            },
            Ins::BitDyn { k, dn, ea } => self.bit(k, None, dn, ea),
            Ins::BitImm { k, ea } => { let w = self.ext()?; self.bit(k, Some(w as u32 & 0xFF), 0, ea) },
            Ins::Movep { dn, an, long, to_mem } => {
                let d = self.ext()?;
                let base = self.c.areg(an).wrapping_add(d as i16 as i32 as u32);
                let n = if long { 4 } else { 2 };
                if to_mem {
                    for j in 0..n {
                        let b = self.c.d[dn as usize] >> (8 * (n - 1 - j)) & 0xFF;
                        self.wr(base.wrapping_add(2 * j), Sz::B, b)?;
                    }
                    Ok(if long { t.MOVEP_RTM_LONG } else { t.MOVEP_RTM_WORD })
                } else {
                    self.r.loose_d |= 1 << dn;
                    let mut v = 0;
                    for j in 0..n { v = v << 8 | self.rd(base.wrapping_add(2 * j), Sz::B)?; }
                    self.set_d(dn, if long { Sz::L } else { Sz::W }, v);
                    Ok(if long { t.MOVEP_MTR_LONG } else { t.MOVEP_MTR_WORD })
                }
            },
            Ins::Move { sz, src, dst } => {
                let mut s = self.opnd(src, sz)?;
                let mut d = self.opnd(dst, sz)?;
                let mut c = if matches!(dst, Ea::Pre(_)) { t.MOVE_DST_ARIWPR } else { t.MOVE_OTHER };
                let v = self.get(&mut s, &mut c)?;
                self.put(&mut d, &mut c, v)?;
                self.logic_flags(sz, v);
                Ok(c)
            },
            Ins::Movea { sz, src, an } => {
                let mut s = self.opnd(src, sz)?;
                let mut c = t.MOVEA;
                let v = self.get(&mut s, &mut c)?;
                *self.c.areg_mut(an) = if sz == Sz::W { v as i16 as i32 as u32 } else { v };
                Ok(c)
            },
            Ins::FromSr(ea) => {
                let mut o = self.opnd(ea, Sz::W)?;
                let mut c = if matches!(ea, Ea::D(_)) { t.MOVEFSR_REG } else { t.MOVEFSR_MEM };
                let sr = self.c.sr as u32;
                self.put(&mut o, &mut c, sr)?;
                Ok(c)
            },
            Ins::ToCcr(ea) => {
                let mut o = self.opnd(ea, Sz::W)?;
                let mut c = t.MOVECCR;
                let v = self.get(&mut o, &mut c)?;
                self.ccr(0x1F, v as u16);
                Ok(c)
            },
            Ins::ToSr(ea) => {
                let mut o = self.opnd(ea, Sz::W)?;
                self.sup()?;
                let mut c = t.MOVESR;
                let v = self.get(&mut o, &mut c)?;
                self.c.sr = v as u16 & SR_MASK;
                Ok(c)
            },
            Ins::Negx(sz, ea) | Ins::Neg(sz, ea) | Ins::Not(sz, ea) => {
                let mut o = self.opnd(ea, sz)?;
                let (r, l) = (matches!(ea, Ea::D(_)), sz == Sz::L);
                let mut c = match i {
                    Ins::Negx(..) => rm(r, l, t.NEGX_REG_BW, t.NEGX_REG_L, t.NEGX_MEM_BW, t.NEGX_MEM_L),
                    Ins::Neg(..) => rm(r, l, t.NEG_REG_BW, t.NEG_REG_L, t.NEG_MEM_BW, t.NEG_MEM_L),
                    _ => rm(r, l, t.NOT_REG_BW, t.NOT_REG_L, t.NOT_MEM_BW, t.NOT_MEM_L),
                };
                let v = self.get(&mut o, &mut c)?;
                let res = match i {
                    Ins::Negx(..) => { let (x, f) = Self::sub_f(sz, 0, v, self.x()); self.ext_flags(f); x },
                    Ins::Neg(..) => { let (x, f) = Self::sub_f(sz, 0, v, 0); self.ccr(0x1F, f); x },
                    _ => { let x = !v & sz.mask(); self.logic_flags(sz, x); x },
                };
                self.put(&mut o, &mut c, res)?;
                Ok(c)
            },
            Ins::Clr(sz, ea) => {
                let mut o = self.opnd(ea, sz)?;
                let mut c = rm(matches!(ea, Ea::D(_)), sz == Sz::L, t.CLR_REG_BW, t.CLR_REG_L, t.CLR_MEM_BW, t.CLR_MEM_L);
                self.put(&mut o, &mut c, 0)?;
                self.logic_flags(sz, 0);
                Ok(c)
            },
            Ins::Tst(sz, ea) => {
                let mut o = self.opnd(ea, sz)?;
                let mut c = rm(matches!(ea, Ea::D(_)), sz == Sz::L, t.TST_REG_BW, t.TST_REG_L, t.TST_MEM_BW, t.TST_MEM_L);
                let v = self.get(&mut o, &mut c)?;
                self.logic_flags(sz, v);
                Ok(c)
            },
            Ins::Nbcd(ea) => {
                let mut o = self.opnd(ea, Sz::B)?;
                let mut c = if matches!(ea, Ea::D(_)) { t.NBCD_REG } else { t.NBCD_MEM };
                let v = self.get(&mut o, &mut c)?;
                let reg = if let Ea::D(r) = ea { Some(r) } else { None };
                let res = self.bcd(0, v, true, o.addr, reg);
                self.put(&mut o, &mut c, res)?;
                Ok(c)
            },
            Ins::Abcd { rx, ry, mem } | Ins::Sbcd { rx, ry, mem } => {
                let sub = matches!(i, Ins::Sbcd { .. });
                let (tr, tm) = if sub { (t.SBCD_REG, t.SBCD_MEM) } else { (t.ABCD_REG, t.ABCD_MEM) };
                if mem {
                    let (sa, da) = self.pre2(ry, rx, Sz::B);
                    let s = self.rd(sa, Sz::B)?;
                    let d = self.rd(da, Sz::B)?;
                    let r = self.bcd(d, s, sub, Some(da), None);
                    self.wr(da, Sz::B, r)?;
                    Ok(tm)
                } else {
                    let (s, d) = (self.c.d[ry as usize] & 0xFF, self.c.d[rx as usize] & 0xFF);
                    let r = self.bcd(d, s, sub, None, Some(rx));
                    self.set_d(rx, Sz::B, r);
                    Ok(tr)
                }
            },
            Ins::Addx { rx, ry, sz, mem } | Ins::Subx { rx, ry, sz, mem } => {
                let sub = matches!(i, Ins::Subx { .. });
                let l = sz == Sz::L;
                let c = if sub { rm(!mem, l, t.SUBX_REG_BW, t.SUBX_REG_L, t.SUBX_MEM_BW, t.SUBX_MEM_L) } else { rm(!mem, l, t.ADDX_REG_BW, t.ADDX_REG_L, t.ADDX_MEM_BW, t.ADDX_MEM_L) };
                let x = self.x();
                let f = if sub { Self::sub_f } else { Self::add_f };
                if mem {
                    let (sa, da) = self.pre2(ry, rx, sz);
                    let s = self.rd(sa, sz)?;
                    let d = self.rd(da, sz)?;
                    let (r, fl) = f(sz, d, s, x);
                    self.wr(da, sz, r)?;
                    self.ext_flags(fl);
                } else {
                    let (r, fl) = f(sz, self.c.d[rx as usize], self.c.d[ry as usize], x);
                    self.set_d(rx, sz, r);
                    self.ext_flags(fl);
                }
                Ok(c)
            },
            Ins::Cmpm { ax, ay, sz } => {
                let mut c = 0;
                let mut s = Opnd { ea: Ea::Post(ay), ext: 0, base: 0, sz, addr: None };
                let mut d = Opnd { ea: Ea::Post(ax), ext: 0, base: 0, sz, addr: None };
                let sa = self.addr(&mut s, &mut c);
                let da = self.addr(&mut d, &mut c);
                let sv = self.rd(sa, sz)?;
                let dv = self.rd(da, sz)?;
                self.alu(Alu::Cmp, sz, dv, sv);
                Ok(if sz == Sz::L { t.CMPM_L } else { t.CMPM_BW })
            },
            Ins::Pea(ea) => {
                let o = self.opnd(ea, Sz::L)?;
                let a = self.control(&o);
                self.r.loose_a |= 1 << 7;
                self.push(Sz::L, a)?;
                Ok(self.mode_time(ea, [t.PEA_ARI, t.PEA_ARIWD, t.PEA_ARIWI8, t.PEA_ABSSHORT, t.PEA_ABSLONG, t.PEA_PCIWD, t.PEA_PCIWI8]))
            },
            Ins::Lea { an, ea } => {
                let o = self.opnd(ea, Sz::L)?;
                let a = self.control(&o);
                *self.c.areg_mut(an) = a;
                Ok(self.mode_time(ea, [t.LEA_ARI, t.LEA_ARIWD, t.LEA_ARIWI8, t.LEA_ABSSHORT, t.LEA_ABSLONG, t.LEA_PCIWD, t.LEA_PCIWI8]))
            },
            Ins::Jmp(ea) => {
                let o = self.opnd(ea, Sz::L)?;
                self.r.next = self.c.pc;
                self.c.pc = self.control(&o);
                Ok(self.mode_time(ea, [t.JMP_ARI, t.JMP_ARIWD, t.JMP_ARIWI8, t.JMP_ABSSHORT, t.JMP_ABSLONG, t.JMP_PCIWD, t.JMP_PCIWI8]))
            },
            Ins::Jsr(ea) => {
                let o = self.opnd(ea, Sz::L)?;
                let (a, ret) = (self.control(&o), self.c.pc);
                self.r.loose_a |= 1 << 7;
                self.push(Sz::L, ret)?;
                self.c.pc = a;
                Ok(self.mode_time(ea, [t.JSR_ARI, t.JSR_ARIWD, t.JSR_ARIWI8, t.JSR_ABSSHORT, t.JSR_ABSLONG, t.JSR_PCIWD, t.JSR_PCIWI8]))
            },
            Ins::Swap(r) => { let v = self.c.d[r as usize].rotate_left(16); self.c.d[r as usize] = v; self.logic_flags(Sz::L, v); Ok(t.SWAP) },
            Ins::Ext { long, dn } => {
                let v = self.c.d[dn as usize];
                if long { let v = v as i16 as i32 as u32; self.c.d[dn as usize] = v; self.logic_flags(Sz::L, v); }
                else { let v = v as i8 as i32 as u32; self.set_d(dn, Sz::W, v); self.logic_flags(Sz::W, v); }
                Ok(t.EXT)
            },
            Ins::Movem { to_mem, long, ea } => self.movem(to_mem, long, ea),
            Ins::Tas(ea) => {
                let mut o = self.opnd(ea, Sz::B)?;
                let mut c = if matches!(ea, Ea::D(_)) { t.TAS_REG } else { t.TAS_MEM };
                let v = self.get(&mut o, &mut c)?;
                self.put(&mut o, &mut c, v | 0x80)?;
                self.logic_flags(Sz::B, v);
                Ok(c)
            },
            Ins::Illegal => Err(4),
            Ins::Trap(n) => Err(32 + n),
            Ins::Link(r) => {
                let d = self.ext()?;
                self.r.loose_a |= 1 << 7 | 1 << r;
                let sp = self.c.areg_mut(7);
                *sp = sp.wrapping_sub(4);
                let a = *sp;
                let v = self.c.areg(r);
                self.wr(a, Sz::L, v)?;
                *self.c.areg_mut(r) = a;
                let sp = self.c.areg_mut(7);
                *sp = sp.wrapping_add(d as i16 as i32 as u32);
                Ok(t.LINK)
            },
            Ins::Unlk(r) => {
                self.r.loose_a |= 1 << 7 | 1 << r;
                let a = self.c.areg(r);
                *self.c.areg_mut(7) = a.wrapping_add(4);
                let v = self.rd(a, Sz::L)?;
                *self.c.areg_mut(r) = v;
                Ok(t.UNLK)
            },
            Ins::Usp { to_usp, an } => {
                self.sup()?;
                if to_usp { self.c.usp = self.c.areg(an); } else { *self.c.areg_mut(an) = self.c.usp; }
                Ok(t.MOVEUSP)
            },
            Ins::Reset => { self.sup()?; self.bus.resets += 1; Ok(t.RESET) },
            Ins::Nop => Ok(t.NOP),
            Ins::Stop => { let w = self.ext()?; self.sup()?; self.c.sr = w & SR_MASK; self.c.stop = true; Ok(t.STOP) },
            Ins::Rte => {
                self.sup()?;
                self.r.loose_a |= 1 << 7;
                let sr = self.pop(Sz::W)? as u16;
                let pc = self.pop(Sz::L)?;
                let mut c = t.RTE;
                if self.fmt == Fmt::Scc {
                    let f = self.pop(Sz::W)? >> 12;
                    if f == 15 { self.c.ssp = self.c.ssp.wrapping_add(26); c += 101; }
                    else if f != 0 { self.r.loose_pc = true; self.r.loose_ssp = true; return Err(14); }
                }
                self.r.next = self.c.pc;
                self.c.pc = pc;
                self.c.sr = sr & SR_MASK;
                Ok(c)
            },
            Ins::Rts => { self.r.loose_a |= 1 << 7; let pc = self.pop(Sz::L)?; self.r.next = self.c.pc; self.c.pc = pc; Ok(t.RTS) },
            Ins::Rtr => {
                self.r.loose_a |= 1 << 7;
                let w = self.pop(Sz::W)?;
                let pc = self.pop(Sz::L)?;
                self.c.pc = pc;
                self.ccr(0x1F, w as u16);
                Ok(t.RTR)
            },
            Ins::Trapv => if self.c.sr & V != 0 { Err(7) } else { Ok(t.TRAPV_NO_TRAP) },
            Ins::Chk { dn, ea } => {
                let mut o = self.opnd(ea, Sz::W)?;
                let mut c = t.CHK_NO_TRAP;
                let b = self.get(&mut o, &mut c)? as i16;
                self.r.src = Some(b as u16 as u32);
                let v = self.c.d[dn as usize] as i16;
                self.r.undef_ccr = Z | V | C;
                if v < 0 { self.ccr(N, N); return Err(6); }
                if v > b { self.ccr(N, 0); return Err(6); }
                self.r.undef_ccr |= N;
                Ok(c)
            },
            Ins::Addq { n, sz, ea } | Ins::Subq { n, sz, ea } => {
                let sub = matches!(i, Ins::Subq { .. });
                let l = sz == Sz::L;
                if let Ea::A(r) = ea {
                    let p = self.c.areg_mut(r);
                    *p = if sub { p.wrapping_sub(n as u32) } else { p.wrapping_add(n as u32) };
                    return Ok(match (sub, l) { (false, true) => t.ADDQ_REG_L, (false, false) => t.ADDQ_REG_BW, (true, true) => t.SUBQ_REG_L, (true, false) => t.SUBQ_AREG_BW });
                }
                let mut o = self.opnd(ea, sz)?;
                let r = matches!(ea, Ea::D(_));
                let mut c = if sub { rm(r, l, t.SUBQ_DREG_BW, t.SUBQ_REG_L, t.SUBQ_MEM_BW, t.SUBQ_MEM_L) } else { rm(r, l, t.ADDQ_REG_BW, t.ADDQ_REG_L, t.ADDQ_MEM_BW, t.ADDQ_MEM_L) };
                let v = self.get(&mut o, &mut c)?;
                let res = self.alu(if sub { Alu::Sub } else { Alu::Add }, sz, v, n as u32);
                self.put(&mut o, &mut c, res)?;
                Ok(c)
            },
            Ins::Scc { cc, ea } => {
                let mut o = self.opnd(ea, Sz::B)?;
                let y = self.cond(cc);
                let mut c = rm(matches!(ea, Ea::D(_)), y, t.SCC_REG_FALSE, t.SCC_REG_TRUE, t.SCC_MEM_FALSE, t.SCC_MEM_TRUE);
                self.put(&mut o, &mut c, if y { 0xFF } else { 0 })?;
                Ok(c)
            },
            Ins::Dbcc { cc, dn } => {
                let base = self.c.pc;
                let d = self.ext()?;
                if self.cond(cc) { return Ok(t.DBCC_TRUE); }
                let n = (self.c.d[dn as usize] as u16).wrapping_sub(1);
                self.set_d(dn, Sz::W, n as u32);
                if n == 0xFFFF { return Ok(t.DBCC_FALSE_NO_BRANCH); }
                self.c.pc = base.wrapping_add(d as i16 as i32 as u32);
                Ok(t.DBCC_FALSE_BRANCH)
            },
            Ins::Bra(d) | Ins::Bsr(d) | Ins::Bcc { d, .. } => {
                let base = self.c.pc;
                let w = op & 0xFF == 0;
                let disp = if w { self.ext()? as i16 as i32 as u32 } else { d as i32 as u32 };
                match *i {
                    Ins::Bcc { cc, .. } => {
                        if !self.cond(cc) { return Ok(if w { t.BCC_NO_BRANCH_WORD } else { t.BCC_NO_BRANCH_BYTE }); }
                        self.c.pc = base.wrapping_add(disp);
                        Ok(t.BCC_BRANCH)
                    },
                    Ins::Bra(_) => { self.c.pc = base.wrapping_add(disp); Ok(if w { t.BRA_WORD } else { t.BRA_BYTE }) },
                    _ => {
                        let ret = self.c.pc;
                        self.r.loose_a |= 1 << 7;
                        self.push(Sz::L, ret)?;
                        self.c.pc = base.wrapping_add(disp);
                        Ok(if w { t.BSR_WORD } else { t.BSR_BYTE })
                    },
                }
            },
            Ins::Moveq { dn, v } => { let v = v as i32 as u32; self.c.d[dn as usize] = v; self.logic_flags(Sz::L, v); Ok(t.MOVEQ) },
            Ins::Alu { k, dn, sz, ea, to_ea } => {
                let mut o = self.opnd(ea, sz)?;
                let l = sz == Sz::L;
                let rdimm = matches!(ea, Ea::D(_) | Ea::A(_) | Ea::Imm);
                let mut c = if to_ea {
                    match k {
                        Alu::Add => if l { t.ADD_MEM_L } else { t.ADD_MEM_BW },
                        Alu::Sub => if l { t.SUB_MEM_L } else { t.SUB_MEM_BW },
                        Alu::And => if l { t.AND_MEM_L } else { t.AND_MEM_BW },
                        Alu::Or => if l { t.OR_MEM_L } else { t.OR_MEM_BW },
                        _ => rm(matches!(ea, Ea::D(_)), l, t.EOR_REG_BW, t.EOR_REG_L, t.EOR_MEM_BW, t.EOR_MEM_L),
                    }
                } else {
                    match k {
                        Alu::Add => if !l { t.ADD_REG_BW } else if rdimm { t.ADD_REG_L_RDIMM } else { t.ADD_REG_L },
                        Alu::Sub => if !l { t.SUB_REG_BW } else if rdimm { t.SUB_REG_L_RDIMM } else { t.SUB_REG_L },
                        Alu::And => if !l { t.AND_REG_BW } else if rdimm { t.AND_REG_L_RDIMM } else { t.AND_REG_L },
                        Alu::Or => if !l { t.OR_REG_BW } else if rdimm { t.OR_REG_L_RDIMM } else { t.OR_REG_L },
                        _ => if l { t.CMP_L } else { t.CMP_BW },
                    }
                };
                let v = self.get(&mut o, &mut c)?;
                let r = self.c.d[dn as usize] & sz.mask();
                if to_ea {
                    let res = self.alu(k, sz, v, r);
                    self.put(&mut o, &mut c, res)?;
                } else {
                    let res = self.alu(k, sz, r, v);
                    if k != Alu::Cmp { self.set_d(dn, sz, res); }
                }
                Ok(c)
            },
            Ins::Mul { signed, dn, ea } => {
                let mut o = self.opnd(ea, Sz::W)?;
                let mut c = if signed { t.MULS } else { t.MULU };
                let v = self.get(&mut o, &mut c)?;
                let d = self.c.d[dn as usize];
                let r = if signed { (v as i16 as i32 * d as i16 as i32) as u32 } else { (v & 0xFFFF) * (d & 0xFFFF) };
                self.c.d[dn as usize] = r;
                self.logic_flags(Sz::L, r);
                Ok(c)
            },
            Ins::Div { signed, dn, ea } => {
                let mut o = self.opnd(ea, Sz::W)?;
                let mut c = if signed { t.DIVS } else { t.DIVU };
                let v = self.get(&mut o, &mut c)?;
                self.r.src = Some(v);
                let d = self.c.d[dn as usize];
                if v == 0 { self.ccr(C, 0); self.r.undef_ccr = N | Z | V; return Err(5); }
                let (q, r, fits) = if signed {
                    let (n, m) = (d as i32 as i64, v as i16 as i64);
                    let (q, r) = (n / m, n % m);
                    (q as u32 & 0xFFFF, r as u32 & 0xFFFF, (-32768..=32767).contains(&q))
                } else {
                    let (q, r) = (d / v, d % v);
                    (q & 0xFFFF, r, q <= 0xFFFF)
                };
                if fits {
                    self.c.d[dn as usize] = r << 16 | q;
                    self.ccr(N | Z | V | C, Self::nz(Sz::W, q));
                } else {
                    self.ccr(V | C, V);
                    self.r.undef_ccr = N | Z;
                }
                Ok(c)
            },
            Ins::AluA { k, an, sz, ea } => {
                let mut o = self.opnd(ea, sz)?;
                let rdimm = matches!(ea, Ea::D(_) | Ea::A(_) | Ea::Imm);
                let mut c = match k {
                    Alu::Add => if sz == Sz::W { t.ADDA_WORD } else if rdimm { t.ADDA_LONG_RDIMM } else { t.ADDA_LONG },
                    Alu::Sub => if sz == Sz::W { t.SUBA_WORD } else if rdimm { t.SUBA_LONG_RDIMM } else { t.SUBA_LONG },
                    _ => t.CMPA,
                };
                let v = self.get(&mut o, &mut c)?;
                let v = if sz == Sz::W { v as i16 as i32 as u32 } else { v };
                match k {
                    Alu::Add => { let p = self.c.areg_mut(an); *p = p.wrapping_add(v); },
                    Alu::Sub => { let p = self.c.areg_mut(an); *p = p.wrapping_sub(v); },
                    _ => { let a = self.c.areg(an); self.alu(Alu::Cmp, Sz::L, a, v); },
                }
                Ok(c)
            },
            Ins::Exg { k, rx, ry } => {
                match k {
                    Exg::Data => self.c.d.swap(rx as usize, ry as usize),
                    Exg::Addr => { let (x, y) = (self.c.areg(rx), self.c.areg(ry)); *self.c.areg_mut(rx) = y; *self.c.areg_mut(ry) = x; },
                    Exg::DataAddr => { let (x, y) = (self.c.d[rx as usize], self.c.areg(ry)); self.c.d[rx as usize] = y; *self.c.areg_mut(ry) = x; },
                }
                Ok(t.EXG)
            },
            Ins::ShReg { k, left, sz, by_reg, cnt, dn } => {
                let n = if by_reg { self.c.d[cnt as usize] % 64 } else if cnt == 0 { 8 } else { cnt as u32 };
                let v = self.c.d[dn as usize];
                let r = self.shift(k, left, sz, n, v);
                self.set_d(dn, sz, r);
                let l = sz == Sz::L;
                let (b, cc) = match k {
                    Sh::As => (if l { t.ASR_L } else { t.ASR_BW }, t.ASR_COUNT),
                    Sh::Ls => (if l { t.LSR_L } else { t.LSR_BW }, t.LSR_COUNT),
                    Sh::Ro => (if l { t.ROR_L } else { t.ROR_BW }, t.ROR_COUNT),
                    Sh::Rox => (if l { t.ROXR_L } else { t.ROXR_BW }, t.ROXR_COUNT),
                };
                Ok(b + cc * n as usize)
            },
            Ins::ShMem { k, left, ea } => {
                let mut o = self.opnd(ea, Sz::W)?;
                let mut c = match k { Sh::As => t.ASM, Sh::Ls => t.LSM, Sh::Ro => t.ROM, Sh::Rox => t.ROXM };
                let v = self.get(&mut o, &mut c)?;
                let r = self.shift(k, left, Sz::W, 1, v);
                self.put(&mut o, &mut c, r)?;
                Ok(c)
            },
        }
    }

    /// Predecrements the source pointer then the destination pointer.
    fn pre2(&mut self, src: u8, dst: u8, sz: Sz) -> (u32, u32) {
        let mut t = 0;
        let mut s = Opnd { ea: Ea::Pre(src), ext: 0, base: 0, sz, addr: None };
        let mut d = Opnd { ea: Ea::Pre(dst), ext: 0, base: 0, sz, addr: None };
        let a = self.addr(&mut s, &mut t);
        (a, self.addr(&mut d, &mut t))
    }
    fn mode_time(&self, ea: Ea, v: [usize; 7]) -> usize {
        v[match ea { Ea::Ind(_) => 0, Ea::Disp(_) => 1, Ea::Idx(_) => 2, Ea::AbsW => 3, Ea::AbsL => 4, Ea::PcD => 5, _ => 6 }]
    }
    fn bit(&mut self, k: Bit, imm: Option<u32>, dn: u8, ea: Ea) -> R<usize> {
        let t = self.t;
        let mut o = self.opnd(ea, Sz::B)?;
        let n = imm.unwrap_or(self.c.d[dn as usize]);
        let reg = matches!(ea, Ea::D(_));
        let mut c = match (imm.is_none(), reg, k) {
            (true, true, Bit::Tst) => t.BTST_DYN_REG, (true, true, Bit::Chg) => t.BCHG_DYN_REG, (true, true, Bit::Clr) => t.BCLR_DYN_REG, (true, true, Bit::Set) => t.BSET_DYN_REG,
            (true, false, Bit::Tst) => t.BTST_DYN_MEM, (true, false, Bit::Chg) => t.BCHG_DYN_MEM, (true, false, Bit::Clr) => t.BCLR_DYN_MEM, (true, false, Bit::Set) => t.BSET_DYN_MEM,
            (false, true, Bit::Tst) => t.BTST_STA_REG, (false, true, Bit::Chg) => t.BCHG_STA_REG, (false, true, Bit::Clr) => t.BCLR_STA_REG, (false, true, Bit::Set) => t.BSET_STA_REG,
            (false, false, Bit::Tst) => t.BTST_STA_MEM, (false, false, Bit::Chg) => t.BCHG_STA_MEM, (false, false, Bit::Clr) => t.BCLR_STA_MEM, (false, false, Bit::Set) => t.BSET_STA_MEM,
        };
        let f = |v: u32, b: u32| match k { Bit::Tst => v, Bit::Chg => v ^ b, Bit::Clr => v & !b, Bit::Set => v | b };
        if let Ea::D(r) = ea {
            let b = 1u32 << (n % 32);
            let v = self.c.d[r as usize];
            self.ccr(Z, if v & b == 0 { Z } else { 0 });
            self.c.d[r as usize] = f(v, b);
        } else {
            let b = 1u32 << (n % 8);
            let v = self.get(&mut o, &mut c)?;
            if k != Bit::Tst { self.put(&mut o, &mut c, f(v, b))?; }
            self.ccr(Z, if v & b == 0 { Z } else { 0 });
        }
        Ok(c)
    }
    fn movem(&mut self, to_mem: bool, long: bool, ea: Ea) -> R<usize> {
        let t = self.t;
        let list = self.ext()?;
        let sz = if long { Sz::L } else { Sz::W };
        let o = self.opnd(ea, sz)?;
        let g = sz.bytes();
        let reg = |c: &Core, i: u8| if i < 8 { c.d[i as usize] } else { c.areg(i - 8) };
        match ea {
            Ea::Pre(r) => {
                self.r.loose_a |= 1 << r;
                let start = self.c;
                let mut a = self.c.areg(r);
                if list == 0 && a & 1 != 0 { self.r.unspec = true; }
                for b in 0..16u8 {
                    if list >> b & 1 != 0 {
                        a = a.wrapping_sub(g);
                        self.wr(a, sz, reg(&start, 15 - b) & sz.mask())?;
                    }
                }
                *self.c.areg_mut(r) = a;
            },
            _ => {
                let mut a = match ea { Ea::Post(r) => { self.r.loose_a |= 1 << r; self.c.areg(r) }, _ => self.control(&o) };
                if list == 0 && a & 1 != 0 { self.r.unspec = true; }
                if !to_mem { self.r.loose_d |= list as u8; self.r.loose_a |= (list >> 8) as u8; }
                for b in 0..16u8 {
                    if list >> b & 1 != 0 {
                        if to_mem {
                            let v = reg(&self.c, b) & sz.mask();
                            self.wr(a, sz, v)?;
                        } else {
                            let v = self.rd(a, sz)?;
                            let v = if long { v } else { v as i16 as i32 as u32 };
                            if b < 8 { self.c.d[b as usize] = v; } else { *self.c.areg_mut(b - 8) = v; }
                        }
                        a = a.wrapping_add(g);
                    }
                }
                if let Ea::Post(r) = ea { *self.c.areg_mut(r) = a; }
            },
        }
        let m = match ea {
            Ea::Ind(_) => t.MOVEM_ARI, Ea::Post(_) => t.MOVEM_ARIWPO, Ea::Pre(_) => t.MOVEM_ARIWPR, Ea::Disp(_) => t.MOVEM_ARIWD, Ea::Idx(_) => t.MOVEM_ARIWI8,
            Ea::AbsW => t.MOVEM_ABSSHORT, Ea::AbsL => t.MOVEM_ABSLONG, Ea::PcD => t.MOVEM_PCIWD, _ => t.MOVEM_PCIWI8,
        };
        Ok(m + if to_mem { 0 } else { t.MOVEM_MTR } + list.count_ones() as usize * if long { t.MOVEM_LONG } else { t.MOVEM_WORD })
    }
}

pub fn cond_of(sr: u16, cc: u8) -> bool {
    let (n, z, v, c) = (sr & N != 0, sr & Z != 0, sr & V != 0, sr & C != 0);
    match cc {
        0 => true, 1 => false, 2 => !c && !z, 3 => c || z, 4 => !c, 5 => c, 6 => !z, 7 => z,
        8 => !v, 9 => v, 10 => !n, 11 => n, 12 => n == v, 13 => n != v, 14 => !z && n == v, _ => z || n != v,
    }
}
