//! Lockstep monitor: the crate's core and the reference machine execute the same step on identical memories; an online
//! checker compares every observable effect and classifies each difference by the aspect it belongs to.
use crate::bus::*;
use crate::isa68k::*;
use crate::model::*;
use crate::rng::*;
use crate::timing::{self, Timing};
use m68000::cpu_details::{CpuDetails, Mc68000, Scc68070};
use m68000::exception::Exception;
use m68000::M68000;
use std::num::Wrapping;

/// CPU descriptions under test.
pub trait Kind: CpuDetails + Clone + Send + Sync + 'static {
    const FMT: Fmt;
    const NAME: &'static str;
    const ID: u64;
    fn timing() -> &'static Timing;
}
impl Kind for Mc68000 { const FMT: Fmt = Fmt::M68k; const NAME: &'static str = "mc68000"; const ID: u64 = 0; fn timing() -> &'static Timing { &timing::MC68000 } }
impl Kind for Scc68070 { const FMT: Fmt = Fmt::Scc; const NAME: &'static str = "scc68070"; const ID: u64 = 1; fn timing() -> &'static Timing { &timing::SCC68070 } }
impl Kind for timing::TagA { const FMT: Fmt = Fmt::M68k; const NAME: &'static str = "tag-a"; const ID: u64 = 2; fn timing() -> &'static Timing { &timing::TAG_A } }
impl Kind for timing::TagB { const FMT: Fmt = Fmt::Scc; const NAME: &'static str = "tag-b"; const ID: u64 = 3; fn timing() -> &'static Timing { &timing::TAG_B } }

/// Ways of stepping.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via { Exc, Own, DisExc, DisOwn }
pub const VIAS: [Via; 4] = [Via::Exc, Via::Own, Via::DisExc, Via::DisOwn];

/// Aspects of a difference.
pub const A_DATA: u32 = 1; // data registers
pub const A_ADDR: u32 = 2; // address registers and stack pointers
pub const A_CCR: u32 = 4;
pub const A_SYS: u32 = 8; // system byte, stop state, reset line
pub const A_PC: u32 = 16;
pub const A_VEC: u32 = 32; // reported exception
pub const A_READ: u32 = 64; // bus reads
pub const A_WRITE: u32 = 128; // bus writes and memory contents
pub const A_CYC: u32 = 256;
pub const A_ODD: u32 = 512; // unaligned access
pub const A_FAULT: u32 = 1024; // containment after a fault
pub const A_PANIC: u32 = 2048;
pub const A_TEXT: u32 = 4096;
pub const A_WADDR: u32 = 8192; // set of bytes written
pub const A_CYCX: u32 = 16384; // cycles of a step that raised
pub const A_ALL: u32 = 0xFFFF;
pub const A_STATE: u32 = A_DATA | A_ADDR | A_CCR | A_SYS | A_PC | A_VEC | A_WRITE | A_WADDR;

pub fn aspect_name(a: u32) -> &'static str {
    match a { A_DATA => "data-register", A_ADDR => "address-register", A_CCR => "ccr", A_SYS => "system-state", A_PC => "pc", A_VEC => "vector", A_READ => "bus-read", A_WRITE => "bus-write",
        A_CYC => "cycles", A_ODD => "odd-access", A_FAULT => "fault-containment", A_PANIC => "panic", A_TEXT => "text", A_WADDR => "bus-write-address", A_CYCX => "cycles-of-raise", _ => "?" }
}

pub fn regs_to_core(r: &m68000::Registers, stop: bool) -> Core {
    let mut c = Core::zero();
    for i in 0..8 { c.d[i] = r.d[i].0; }
    for i in 0..7 { c.a[i] = r.a[i].0; }
    c.usp = r.usp.0; c.ssp = r.ssp.0; c.pc = r.pc.0; c.sr = sr_bits(&r.sr); c.stop = stop;
    c
}
/// Encoding of the status register, computed from its public fields (independent of the crate's conversion).
pub fn sr_bits(s: &m68000::status_register::StatusRegister) -> u16 {
    (s.t as u16) << 15 | (s.s as u16) << 13 | (s.interrupt_mask as u16) << 8 | (s.x as u16) << 4 | (s.n as u16) << 3 | (s.z as u16) << 2 | (s.v as u16) << 1 | s.c as u16
}
pub fn set_sr(s: &mut m68000::status_register::StatusRegister, v: u16) {
    s.t = v & 0x8000 != 0; s.s = v & 0x2000 != 0; s.interrupt_mask = (v >> 8 & 7) as u8;
    s.x = v & 16 != 0; s.n = v & 8 != 0; s.z = v & 4 != 0; s.v = v & 2 != 0; s.c = v & 1 != 0;
}
pub fn core_to_regs(c: &Core, r: &mut m68000::Registers) {
    for i in 0..8 { r.d[i] = Wrapping(c.d[i]); }
    for i in 0..7 { r.a[i] = Wrapping(c.a[i]); }
    r.usp.0 = c.usp; r.ssp.0 = c.ssp; r.pc.0 = c.pc;
    set_sr(&mut r.sr, c.sr);
}

/// The same memory seen through the default long accessors of the memory trait.
pub struct Split<'a>(pub &'a mut Bus);
impl m68000::MemoryAccess for Split<'_> {
    fn get_byte(&mut self, addr: u32) -> Option<u8> { self.0.r8(addr) }
    fn get_word(&mut self, addr: u32) -> Option<u16> { self.0.r16(addr) }
    fn set_byte(&mut self, addr: u32, v: u8) -> Option<()> { self.0.w8(addr, v) }
    fn set_word(&mut self, addr: u32, v: u16) -> Option<()> { self.0.w16(addr, v) }
    fn reset_instruction(&mut self) { self.0.resets += 1; }
}

pub struct Dut<K: Kind> { pub cpu: M68000<K>, pub bus: Bus }

#[derive(Clone, Debug, Default)]
pub struct Obs { pub cycles: usize, pub vector: Option<u8>, pub addr: u32, pub text: String, pub panicked: Option<String> }

impl<K: Kind> Dut<K> {
    pub fn new(bus: Bus) -> Self { Dut { cpu: M68000::<K>::new_no_reset(), bus } }
    pub fn core(&self) -> Core { regs_to_core(&self.cpu.regs, self.cpu.stop) }
    /// Lets the CPU have executed a word that changes nothing before the state under test is set.
    pub fn executed_before(&mut self, w: u16) {
        let mut m = [(w >> 8) as u8, w as u8, 0, 0];
        let cpu = &mut self.cpu;
        cpu.regs.pc.0 = 0;
        cpu.regs.sr.s = true;
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cpu.interpreter_exception(&mut m[..])));
    }
    pub fn set_core(&mut self, c: &Core) { core_to_regs(c, &mut self.cpu.regs); self.cpu.stop = c.stop; }
    /// One step; for the self-processing variants the vector is not observable.
    pub fn step(&mut self, via: Via) -> Obs {
        let cpu = &mut self.cpu;
        let r = if self.bus.split { Self::go(cpu, &mut Split(&mut self.bus), via) } else { Self::go(cpu, &mut self.bus, via) };
        match r { Ok(o) => o, Err(e) => Obs { panicked: Some(panic_text(&e)), ..Default::default() } }
    }
    /// One step with another memory in front of the bus.
    pub fn step_on<B: m68000::MemoryAccess>(cpu: &mut M68000<K>, bus: &mut B, via: Via) -> Obs {
        match Self::go(cpu, bus, via) { Ok(o) => o, Err(e) => Obs { panicked: Some(panic_text(&e)), ..Default::default() } }
    }
    fn go<B: m68000::MemoryAccess>(cpu: &mut M68000<K>, bus: &mut B, via: Via) -> std::thread::Result<Obs> {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match via {
            Via::Exc => { let (c, v) = cpu.interpreter_exception(bus); Obs { cycles: c, vector: v, ..Default::default() } },
            Via::Own => Obs { cycles: cpu.interpreter(bus), ..Default::default() },
            Via::DisExc => { let (a, t, c, v) = cpu.disassembler_interpreter_exception(bus); Obs { cycles: c, vector: v, addr: a, text: t, panicked: None } },
            Via::DisOwn => { let (a, t, c) = cpu.disassembler_interpreter(bus); Obs { cycles: c, vector: None, addr: a, text: t, panicked: None } },
        }))
    }
    pub fn request(&mut self, v: u8) { self.cpu.exception(Exception::from(v)); }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
}

/// Scratch buffers of the comparator.
#[derive(Default)]
pub struct Cmp { a: Vec<(u32, u8)>, b: Vec<(u32, u8)>, pub lenient_log: Vec<Ev> }

pub struct Diff { pub aspect: u32, pub msg: String }

/// A processor pair.
pub struct Pair<K: Kind> {
    pub m: Model,
    pub d: Dut<K>,
    pub cmp: Cmp,
    pub via: Via,
    /// State before the last step.
    pub pre: Core,
    pub obs: Obs,
    pub known: bool,
}

impl<K: Kind> Pair<K> {
    pub fn new(seed: u64) -> Self {
        let bus = Bus::new(seed);
        Pair { m: Model::new(K::FMT, K::timing(), bus.clone()), d: Dut::new(bus), cmp: Cmp::default(), via: Via::Exc, pre: Core::zero(), obs: Obs::default(), known: false }
    }
    pub fn reset_to(&mut self, seed: u64) {
        self.m.bus.reset_to(seed);
        self.d.bus.reset_to(seed);
        self.m.pend = [0; 4];
        self.m.op = 0xFFFF;
        self.m.c = Core::zero();
        self.d.cpu = M68000::<K>::new_no_reset();
    }
    /// See `Dut::executed_before`.
    pub fn executed_before(&mut self, w: u16) { self.d.executed_before(w); self.m.op = w; }
    pub fn set_fill(&mut self, f: Fill) { self.m.bus.fill = f.clone(); self.d.bus.fill = f; }
    pub fn poke8(&mut self, a: u32, v: u8) { self.m.bus.poke8(a, v); self.d.bus.poke8(a, v); }
    pub fn poke16(&mut self, a: u32, v: u16) { self.m.bus.poke16(a, v); self.d.bus.poke16(a, v); }
    pub fn poke32(&mut self, a: u32, v: u32) { self.m.bus.poke32(a, v); self.d.bus.poke32(a, v); }
    pub fn hole(&mut self, lo: u32, hi: u32, r: bool, w: bool) { self.m.bus.holes.push((lo, hi, r, w)); self.d.bus.holes.push((lo, hi, r, w)); }
    pub fn set_split(&mut self, on: bool) { self.m.bus.split = on; self.d.bus.split = on; }
    pub fn no_holes(&mut self) { self.m.bus.holes.clear(); self.d.bus.holes.clear(); }
    pub fn set_core(&mut self, c: &Core) { self.m.c = *c; self.d.set_core(c); }
    pub fn request(&mut self, v: u8) { self.m.request(v); self.d.request(v); }
    pub fn fresh_cpu(&mut self) { self.d.cpu = M68000::<K>::new_no_reset(); self.m.pend = [0; 4]; self.m.op = 0xFFFF; }

    /// What the reference machine would do; the report stays in `m.r`, the state is unchanged.
    pub fn peek(&mut self, log: &mut Vec<Ev>) {
        let (c, pend, op, resets) = (self.m.c, self.m.pend, self.m.op, self.m.bus.resets);
        self.m.bus.log.clear();
        self.m.bus.mark();
        self.m.step();
        self.m.bus.rollback();
        self.m.bus.journalling = false;
        std::mem::swap(log, &mut self.m.bus.log);
        self.m.bus.log.clear();
        self.m.c = c; self.m.pend = pend; self.m.op = op; self.m.bus.resets = resets;
    }

    /// Steps both and returns every difference.
    pub fn step(&mut self, via: Via, out: &mut Vec<Diff>) {
        out.clear();
        self.via = via;
        self.known = false;
        self.pre = self.m.c;
        self.d.bus.fuel = self.d.bus.accesses + 20_000;
        self.m.bus.log.clear();
        self.d.bus.log.clear();
        self.d.bus.odd = 0;
        let (pend0, op0, resets0) = (self.m.pend, self.m.op, self.m.bus.resets);
        self.m.bus.mark();
        self.m.step();
        self.obs = self.d.step(via);
        // The part of a frame that reached memory before its writing was refused may not be read back in the same step, where it is not the same part.
        if !self.m.r.partial.is_empty() {
            let r = &self.m.r;
            let inside = |a: u32| r.partial.iter().any(|p| a.wrapping_sub(p.0) < p.1);
            let torn = !self.d.bus.log.iter().filter(|e| e.write && e.ok && inside(e.addr)).eq(self.m.bus.log.iter().filter(|e| e.write && e.ok && inside(e.addr)));
            if torn && self.m.bus.log.iter().any(|e| !e.write && (0..e.size as u32).any(|i| inside(e.addr.wrapping_add(i)))) { self.m.r.unspec = true; self.resync(); return; }
        }
        let mut diff = |a: u32, msg: String| out.push(Diff { aspect: a, msg });
        let r = &self.m.r;
        if self.d.bus.odd != 0 { diff(A_ODD, format!("word or long access at an odd address: {:?}", self.d.bus.log.iter().find(|e| e.size > 1 && e.addr & 1 != 0))); }
        if let Some(p) = &self.obs.panicked {
            if r.halt { self.m.bus.journalling = false; return; }
            if r.ext_fault && r.fetched && p != crate::bus::FUEL { self.known = true; }
            diff(A_PANIC, format!("panicked: {p}"));
            self.m.bus.journalling = false;
            return;
        }
        if r.halt { self.m.bus.journalling = false; diff(A_VEC, "double fault or unreadable reset vector did not halt".into()); return; }
        // Unspecified words of a fault frame may not be read back in the same step.
        let framed = r.taken.iter().any(|v| *v == 2 || *v == 3) || r.failed.iter().any(|v| v.0 == 2 || v.0 == 3);
        if framed && !r.loose.is_empty() && self.m.bus.log.iter().any(|e| !e.write && (0..e.size as u32).any(|i| r.loose.contains(&e.addr.wrapping_add(i)))) { self.m.r.unspec = true; }
        // How far the stack pointer got in a frame that could not be written is not specified; everything after it depends on that.
        let off = self.d.core().ssp.wrapping_sub(self.m.c.ssp) as i32;
        let most: u32 = self.m.r.partial.iter().map(|p| p.1).sum();
        if off != 0 && off.unsigned_abs() <= most { self.m.r.unspec = true; }
        let r = &self.m.r;
        if r.unspec { self.resync(); return; }
        let exc = matches!(via, Via::Exc | Via::DisExc);
        let fault = matches!(r.vector, Some(2) | Some(3));
        if exc && self.obs.vector != r.vector {
            diff(A_VEC, format!("reported exception {:?}, expected {:?}", self.obs.vector, r.vector));
        }
        if self.obs.cycles != r.cycles { // An instruction that traps costs the time of its vector and nothing of its own; one that is not even fetched, nothing.
            let exact = if r.fetched { !fault } else { r.failed.is_empty() };
            diff(if exact { A_CYC } else { A_CYCX }, format!("{} cycles, expected {}", self.obs.cycles, r.cycles)); }
        if matches!(via, Via::DisExc | Via::DisOwn) {
            if r.fetched != !self.obs.text.is_empty() { diff(A_TEXT, format!("text {:?} although an instruction was {}executed", self.obs.text, if r.fetched { "" } else { "not " })); }
            if r.fetched && self.obs.addr != r.at { diff(A_TEXT, format!("reported address {:08X}, expected {:08X}", self.obs.addr, r.at)); }
        }
        let mut got = self.d.core();
        if got.sr & !SR_MASK != 0 { diff(A_SYS, format!("status register {:04X} has unimplemented bits", got.sr)); }
        if fault {
            // The step ended with a bus or address fault: containment rules instead of exact results.
            let b = self.m.before;
            for i in 0..8 { if r.loose_d >> i & 1 == 0 && got.d[i] != b.d[i] { diff(A_FAULT, format!("D{i} changed from {:08X} to {:08X} by a faulting instruction", b.d[i], got.d[i])); } }
            let la = if r.ins.is_some() { r.loose_a } else { 0 };
            for i in 0..7 { if la >> i & 1 == 0 && got.a[i] != b.a[i] { diff(A_FAULT, format!("A{i} changed from {:08X} to {:08X} by a faulting instruction", b.a[i], got.a[i])); } }
            let sup = b.sup();
            if got.usp != b.usp && (sup || la & 0x80 == 0) { diff(A_FAULT, format!("USP changed from {:08X} to {:08X}", b.usp, got.usp)); }
            if got.ssp != b.ssp && (!sup || la & 0x80 == 0) { diff(A_FAULT, format!("SSP changed from {:08X} to {:08X}", b.ssp, got.ssp)); }
            if (got.sr ^ b.sr) & 0xFFE0 != 0 { diff(A_FAULT, format!("system byte changed from {:04X} to {:04X} by a faulting instruction", b.sr, got.sr)); }
            if got.stop != b.stop { diff(A_FAULT, "stop state changed by a faulting instruction".into()); }
            let ctl = matches!(r.ins, Some(Ins::Rts | Ins::Rtr | Ins::Rte | Ins::Jsr(_) | Ins::Bsr(_)));
            if got.pc.wrapping_sub(r.at) > 10 && !ctl { diff(A_FAULT, format!("PC {:08X} after a fault of the instruction at {:08X}", got.pc, r.at)); }
            // What the instruction would have done without the fault.
            let vec = r.vector;
            let rep = self.m.r.clone();
            let after = self.m.c;
            let pend1 = self.m.pend;
            self.m.bus.rollback();
            let strict_log = std::mem::take(&mut self.m.bus.log);
            let holes = std::mem::take(&mut self.m.bus.holes);
            self.m.c = self.pre; self.m.pend = pend0; self.m.op = op0;
            self.m.lenient = true;
            self.m.step();
            self.m.lenient = false;
            let len_log = std::mem::take(&mut self.m.bus.log);
            self.m.bus.rollback();
            self.m.bus.journalling = false;
            self.m.bus.log = strict_log;
            self.m.bus.holes = holes;
            self.m.c = after; self.m.pend = pend1;
            self.m.op = if rep.fetched { rep.op } else { op0 };
            self.m.bus.resets = resets0;
            self.m.r = rep;
            if self.m.r.failed.is_empty() {
                byte_events(&self.d.bus.log, true, &mut self.cmp.a);
                byte_events(&len_log, true, &mut self.cmp.b);
                if let Some(e) = not_subset(&self.cmp.a, &self.cmp.b, &self.m.r.loose) { diff(A_FAULT, format!("wrote {:02X} to {:08X}, which the instruction does not write", e.1, e.0)); }
                byte_events(&self.d.bus.log, false, &mut self.cmp.a);
                byte_events(&len_log, false, &mut self.cmp.b);
                if let Some(e) = not_subset(&self.cmp.a, &self.cmp.b, &self.m.r.loose) { diff(A_FAULT | A_READ, format!("read {:08X}, which the instruction does not read", e.0)); }
                let mut bad = false;
                let mut nbad = 0;
                for e in &self.d.bus.log { if !e.ok { bad = true; nbad += 1; } else if bad && e.write { diff(A_FAULT, format!("wrote to {:08X} after a refused access", e.addr)); } }
                if nbad > 1 { diff(A_FAULT, "more than one refused access in one instruction".into()); }
                if nbad > 0 && vec == Some(3) && exc && self.obs.vector == Some(3) { diff(A_FAULT, "access refused by the memory system but an address error was reported".into()); }
            }
            // Adopt what the specification leaves open.
            if exc { self.m.r.vector = self.obs.vector; }
            let log = std::mem::take(&mut self.d.bus.log);
            for e in &log { if e.write && e.ok { for i in 0..e.size as u32 { let a = e.addr.wrapping_add(i); let v = self.d.bus.peek8(a); self.m.bus.poke8(a, v); } } }
            self.d.bus.log = log;
            self.m.c = got;
            if let Some(a) = touched_differs(&self.m.bus, &self.d.bus) { diff(A_WRITE, format!("memory differs at {a:08X}")); }
            self.after(via);
            return;
        }
        self.m.bus.journalling = false;
        let r = &self.m.r;
        let mut want = self.m.c;
        got.sr = got.sr & !r.undef_ccr | want.sr & r.undef_ccr;
        if let Some((n, mask)) = r.undef_d { want.d[n as usize] = want.d[n as usize] & !mask | got.d[n as usize] & mask; }
        if r.loose_pc { want.pc = got.pc; }
        if r.loose_ssp && r.failed.is_empty() { want.ssp = got.ssp; }
        if got != want {
            if got.d != want.d { diff(A_DATA, format!("data registers:{}", got.diff(&want))); }
            if got.a != want.a || got.usp != want.usp || got.ssp != want.ssp { diff(A_ADDR, format!("address registers:{}", got.diff(&want))); }
            if got.sr & 0x1F != want.sr & 0x1F { diff(A_CCR, format!("condition codes {:02X}, expected {:02X}", got.sr & 0x1F, want.sr & 0x1F)); }
            if got.sr & 0xFF00 != want.sr & 0xFF00 || got.stop != want.stop { diff(A_SYS, format!("system state:{}", got.diff(&want))); }
            if got.pc != want.pc { diff(A_PC, format!("PC {:08X}, expected {:08X}", got.pc, want.pc)); }
        }
        if self.d.bus.resets != self.m.bus.resets { diff(A_SYS, format!("reset line asserted {} times, expected {}", self.d.bus.resets, self.m.bus.resets)); }
        // Bus.
        let loose = &self.m.r.loose;
        byte_events(&self.d.bus.log, true, &mut self.cmp.a);
        byte_events(&self.m.bus.log, true, &mut self.cmp.b);
        if !r.partial.is_empty() {
            let inside = |a: u32| r.partial.iter().any(|p| a.wrapping_sub(p.0) < p.1);
            self.cmp.a.retain(|e| !inside(e.0));
            self.cmp.b.retain(|e| !inside(e.0));
        }
        let same_addr = self.cmp.a.len() == self.cmp.b.len() && self.cmp.a.iter().zip(&self.cmp.b).all(|(x, y)| x.0 == y.0);
        if let Some(s) = event_diff(&mut self.cmp.a, &mut self.cmp.b, loose) { diff(if same_addr { A_WRITE } else { A_WADDR }, format!("writes: {s}")); }
        byte_events(&self.d.bus.log, false, &mut self.cmp.a);
        byte_events(&self.m.bus.log, false, &mut self.cmp.b);
        if r.vector == Some(8) {
            if let Some(e) = not_subset(&self.cmp.a, &self.cmp.b, &[]) { diff(A_READ, format!("a privilege violation read {:08X}", e.0)); }
        } else if let Some(s) = event_diff(&mut self.cmp.a, &mut self.cmp.b, loose) { diff(A_READ, format!("reads: {s}")); }
        for i in 0..self.m.r.loose.len() { let a = self.m.r.loose[i]; let v = self.d.bus.peek8(a); self.m.bus.poke8(a, v); }
        for i in 0..self.m.r.partial.len() {
            let (lo, n) = self.m.r.partial[i];
            for k in 0..n { let a = lo.wrapping_add(k); let (v, w) = (self.d.bus.peek8(a), self.m.bus.peek8(a)); if v != w { self.m.bus.poke8(a, v); } }
        }
        if let Some(a) = touched_differs(&self.m.bus, &self.d.bus) { diff(A_WRITE, format!("memory at {a:08X}: {:04X}, expected {:04X}", self.d.bus.peek16(a), self.m.bus.peek16(a))); }
        // Adopt the undefined parts.
        self.m.c = self.d.core();
        self.after(via);
    }
    fn after(&mut self, via: Via) {
        // The self-processing variants submit the vector themselves.
        if matches!(via, Via::Own | Via::DisOwn) { if let Some(v) = self.m.r.vector { let s = self.m.c.stop; self.m.request(v); let _ = s; } }
    }
    /// Makes the reference machine a copy of the crate's (nothing is specified about the step).
    pub fn resync(&mut self) {
        self.m.bus.journalling = false;
        self.m.c = self.d.core();
        self.m.r.vector = self.obs.vector;
        self.m.bus.copy_content(&self.d.bus);
        self.m.bus.resets = self.d.bus.resets;
        self.after(self.via);
    }
}

/// First byte written in this step that is not the same in both memories (everything else was equal before the step).
fn touched_differs(a: &Bus, b: &Bus) -> Option<u32> {
    for e in a.log.iter().chain(&b.log) {
        if e.write && e.ok { for i in 0..e.size as u32 { let x = e.addr.wrapping_add(i); if a.peek8(x) != b.peek8(x) { return Some(x & !1); } } }
    }
    None
}

fn fmt_ev(x: &(u32, u8)) -> String { format!("{:08X}={:02X}", x.0, x.1) }

/// First difference of two sorted byte-event lists; values of loose bytes are ignored.
fn event_diff(got: &mut [(u32, u8)], want: &mut [(u32, u8)], loose: &[u32]) -> Option<String> {
    if !loose.is_empty() {
        for e in got.iter_mut().chain(want.iter_mut()) { if loose.contains(&e.0) { e.1 = 0; } }
    }
    if got == want { return None; }
    // Order of events at one address is kept by the stable sort; a double access with the same values still counts.
    let mut i = 0;
    while i < got.len() && i < want.len() && got[i] == want[i] { i += 1; }
    Some(match (got.get(i), want.get(i)) {
        (Some(g), Some(w)) => format!("got {} bytes, expected {}; first difference {} instead of {}", got.len(), want.len(), fmt_ev(g), fmt_ev(w)),
        (Some(g), None) => format!("got {} bytes, expected {}; extra {}", got.len(), want.len(), fmt_ev(g)),
        (None, Some(w)) => format!("got {} bytes, expected {}; missing {}", got.len(), want.len(), fmt_ev(w)),
        _ => unreachable!(),
    })
}

fn not_subset(got: &[(u32, u8)], want: &[(u32, u8)], loose: &[u32]) -> Option<(u32, u8)> {
    let mut j = 0;
    for g in got {
        while j < want.len() && want[j].0 < g.0 { j += 1; }
        // Several events may exist at one address.
        let mut k = j;
        let mut hit = false;
        while k < want.len() && want[k].0 == g.0 { if want[k].1 == g.1 || loose.contains(&g.0) { hit = true; break; } k += 1; }
        if !hit { return Some(*g); }
    }
    None
}

/// Random machine state for a single-step case.
pub fn gen_core(rng: &mut Rng, sup: Option<bool>, odd_pct: u64) -> Core {
    let mut c = Core::zero();
    for i in 0..8 { c.d[i] = rng.operand(); }
    let base = rng.u32() & !1;
    let areg = |rng: &mut Rng| {
        let v = match rng.below(16) {
            0 => rng.below(64) as u32,
            1 => 0u32.wrapping_sub(rng.below(64) as u32),
            2 | 3 => base.wrapping_add(rng.below(32) as u32).wrapping_sub(16),
            4 => 0x7FFF_FFF0u32.wrapping_add(rng.below(32) as u32),
            5 if rng.bool() => (1u32 << rng.range(12, 31)).wrapping_add(rng.below(32) as u32).wrapping_sub(16),
            _ => rng.u32(),
        };
        if rng.chance(odd_pct, 100) { v | 1 } else { v & !1 }
    };
    for i in 0..7 { c.a[i] = areg(rng); }
    c.usp = areg(rng);
    c.ssp = areg(rng);
    c.pc = match rng.below(24) { 0 => 0u32.wrapping_sub(2 * rng.below(8) as u32), 1 => 2 * rng.below(16) as u32, 4 => (1u32 << rng.range(12, 31)).wrapping_sub(2 * rng.below(6) as u32), 2 => base, 3 => c.a[(rng.below(7)) as usize] & !1, _ => rng.u32() & !1 };
    let s = match sup { Some(s) => s, None => rng.bool() };
    c.sr = rng.u16() & 0x071F | if s { S } else { 0 } | if rng.chance(1, 10) { T } else { 0 };
    c
}

/// Extension words biased to boundaries.
pub fn gen_ext(rng: &mut Rng) -> u16 {
    match rng.below(6) {
        0 => rng.pick(&[0, 1, 2, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x0100, 0x8080]),
        1 => rng.below(64) as u16,
        2 => 0u16.wrapping_sub(rng.below(64) as u16),
        _ => rng.u16(),
    }
}
