//! Monitors of the C interface: differential histories against the Rust API (C29) and memory safety, layout and text
//! truncation under AddressSanitizer (C30). Every call goes through c/driver.c, compiled against the repository's headers.
#![allow(dead_code)]
#[path = "../../mon/src/bus.rs"] mod bus;
#[path = "../../mon/src/rng.rs"] mod rng;
#[path = "../../mon/src/isa68k.rs"] mod isa68k;
#[path = "../../mon/src/timing.rs"] mod timing;
#[path = "../../mon/src/model.rs"] mod model;
#[path = "../../mon/src/lockstep.rs"] mod lockstep;
#[path = "../../mon/src/runner.rs"] mod runner;
#[path = "../../mon/src/single.rs"] mod single;
#[path = "../../mon/src/grid.rs"] mod grid;
#[path = "../../mon/src/hist.rs"] mod hist;
#[path = "../../mon/src/exc.rs"] mod exc;
#[path = "../../mon/src/prog.rs"] mod prog;
mod layout;

use bus::*;
use hist::*;
use isa68k::decode;
use lockstep::*;
use model::*;
use prog::*;
use rng::*;
use runner::*;

use m68000::cpu_details::{Mc68000, Scc68070};
use m68000::exception::Exception;
use m68000::M68000;
use std::alloc::{GlobalAlloc, Layout as AllocLayout, System};
use std::cell::Cell;
use std::ffi::c_void;
use std::ops::Range;
use std::os::raw::c_char;

// ---------------------------------------------------------------- allocation monitor

thread_local! { static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) }; }
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: AllocLayout) -> *mut u8 { let _ = LIVE.try_with(|c| { let (n, b) = c.get(); c.set((n + 1, b + l.size() as i64)); }); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: AllocLayout) { let _ = LIVE.try_with(|c| { let (n, b) = c.get(); c.set((n - 1, b - l.size() as i64)); }); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOC: Counting = Counting;

// ---------------------------------------------------------------- C side

#[repr(C)]
#[derive(Default, Clone, Copy, Debug, PartialEq)]
pub struct Out { cycles: u64, pc: u32, data: u32, exception: u32 }
type Call = unsafe extern "C" fn(i32, *mut c_void, *mut c_void, u64, *mut c_char, u64, *mut Out, *mut u32) -> i32;

macro_rules! side {
    ($m:ident, $new:ident, $del:ident, $ptr:ident, $call:ident) => {
        extern "C" {
            fn $new(noreset: i32) -> *mut c_void;
            fn $del(c: *mut c_void);
            fn $ptr(c: *mut c_void, m: i32) -> *mut c_void;
            fn $call(op: i32, c: *mut c_void, m: *mut c_void, arg: u64, buf: *mut c_char, len: u64, o: *mut Out, regs: *mut u32) -> i32;
        }
    };
}
side!(mc68000, c_mc68000_new, c_mc68000_delete, c_mc68000_pointer, c_mc68000_call);
side!(scc68070, c_scc68070_new, c_scc68070_delete, c_scc68070_pointer, c_scc68070_call);
extern "C" {
    fn c_callbacks_new(bus: *mut c_void, seed: u32) -> *mut c_void;
    fn c_callbacks_delete(c: *mut c_void) -> u32;
    fn c_ram_new(image: *const u8, size: u32) -> *mut c_void;
    fn c_ram_delete(c: *mut c_void) -> u32;
    fn malloc(n: usize) -> *mut c_void;
    fn free(p: *mut c_void);
}

trait CKind: Kind {
    const NEW: unsafe extern "C" fn(i32) -> *mut c_void;
    const DEL: unsafe extern "C" fn(*mut c_void);
    const PTR: unsafe extern "C" fn(*mut c_void, i32) -> *mut c_void;
    const CALL: Call;
}
impl CKind for Mc68000 {
    const NEW: unsafe extern "C" fn(i32) -> *mut c_void = c_mc68000_new;
    const DEL: unsafe extern "C" fn(*mut c_void) = c_mc68000_delete;
    const PTR: unsafe extern "C" fn(*mut c_void, i32) -> *mut c_void = c_mc68000_pointer;
    const CALL: Call = c_mc68000_call;
}
impl CKind for Scc68070 {
    const NEW: unsafe extern "C" fn(i32) -> *mut c_void = c_scc68070_new;
    const DEL: unsafe extern "C" fn(*mut c_void) = c_scc68070_delete;
    const PTR: unsafe extern "C" fn(*mut c_void, i32) -> *mut c_void = c_scc68070_pointer;
    const CALL: Call = c_scc68070_call;
}

#[no_mangle]
pub unsafe extern "C" fn monitor_access(bus: *mut c_void, kind: i32, addr: u32, data: u32) -> u64 {
    let b = &mut *(bus as *mut Bus);
    let r = match kind {
        0 => b.r8(addr).map(|v| v as u32), 1 => b.r16(addr).map(|v| v as u32), 2 => b.r32(addr),
        3 => b.w8(addr, data as u8).map(|_| 0), 4 => b.w16(addr, data as u16).map(|_| 0), _ => b.w32(addr, data).map(|_| 0),
    };
    match r { Some(v) => v as u64, None => 2 << 32 }
}
#[no_mangle]
pub unsafe extern "C" fn monitor_reset(bus: *mut c_void) { (*(bus as *mut Bus)).resets += 1; }

const STEP: i32 = 0; const STEP_EXC: i32 = 1; const DIS: i32 = 2; const DIS_EXC: i32 = 3; const CYCLE: i32 = 4; const CYCLE_EXC: i32 = 5; const LOOP: i32 = 6; const EXCEPTION: i32 = 7;
const WORD: i32 = 8; const LONG: i32 = 9; const PEEK: i32 = 10; const REGS: i32 = 11; const REGS_MUT: i32 = 12; const GET_REGS: i32 = 13; const SET_REGS: i32 = 14; const SET_BY_POINTER: i32 = 15;
const NAMES: [&str; 16] = ["interpreter", "interpreter_exception", "disassembler_interpreter", "disassembler_interpreter_exception", "cycle", "cycle_until_exception", "loop_until_exception_stop", "exception",
    "get_next_word", "get_next_long", "peek_next_word", "registers", "registers_mut", "get_registers", "set_registers", "registers_mut (write)"];

fn words_of(c: &Core) -> [u32; 19] {
    let mut o = [0u32; 19];
    o[..8].copy_from_slice(&c.d);
    o[8..15].copy_from_slice(&c.a[..7]);
    o[15] = c.usp; o[16] = c.ssp; o[17] = c.pc; o[18] = c.sr as u32;
    o
}
/// Vectors the header can name.
fn nameable(v: u8) -> bool { matches!(v, 0 | 2..=11 | 14 | 15 | 24..=47 | 57..=64) }

/// A core driven from C, with its own recording bus.
struct Side<K: CKind> { core: *mut c_void, cb: *mut c_void, bus: Box<Bus>, k: std::marker::PhantomData<K>, ptr: *mut c_void }
impl<K: CKind> Side<K> {
    fn new(bus: Bus, noreset: bool, seed: u32) -> Self {
        let mut bus = Box::new(bus);
        let cb = unsafe { c_callbacks_new(&mut *bus as *mut Bus as *mut c_void, seed) };
        let core = unsafe { (K::NEW)(noreset as i32) };
        let ptr = unsafe { (K::PTR)(core, 1) };
        Side { core, cb, bus, k: std::marker::PhantomData, ptr }
    }
    fn call(&mut self, op: i32, arg: u64, buf: *mut c_char, len: u64, regs: &mut [u32; 19]) -> Out {
        let mut o = Out::default();
        unsafe { (K::CALL)(op, self.core, self.cb, arg, buf, len, &mut o, regs.as_mut_ptr()); }
        o
    }
    fn regs(&mut self) -> [u32; 19] { let mut r = [0; 19]; self.call(GET_REGS, 0, std::ptr::null_mut(), 0, &mut r); r }
    fn stopped(&self) -> bool { unsafe { (*(self.core as *const M68000<K>)).stop } }
}
impl<K: CKind> Drop for Side<K> { fn drop(&mut self) { unsafe { (K::DEL)(self.core); c_callbacks_delete(self.cb); } } }

/// Buffer lengths around the interesting ones.
fn gen_len(rng: &mut Rng, text: usize) -> usize {
    match rng.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => text, 4 => text + 1, 5 => text + 2, 6 => rng.below(12) as usize, 7 => text.saturating_sub(1), 8 => 256, _ => rng.below(64) as usize }
}

/// Histories of C calls, replayed on the Rust API.
fn history<K: CKind>(ctx: &mut Ctx, unit: u64, its: Range<u64>, safety: bool) {
    let cfg = Cfg { holes: true, steps: 150, req: 40, wild: 20, stops: 30, ..CFG };
    let mut calls = [0u64; 16];
    let (mut ends, mut vectors, mut faults, mut accesses, mut truncated, mut whole, mut cores, mut recreated) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let n = rng.pick(&[1usize, 1, 2, 3]);
        let mut sides: Vec<Side<K>> = Vec::new();
        let mut duts: Vec<Dut<K>> = Vec::new();
        let mut lays = Vec::new();
        let mut schedules = Vec::new();
        let start = |rng: &mut Rng| {
            let mut sc = scene::<K>(rng, &cfg);
            sc.dut.bus.split = false;
            let noreset = rng.chance(3, 4);
            let mut d = Dut::<K> { cpu: if noreset { M68000::<K>::new_no_reset() } else { M68000::<K>::new() }, bus: sc.dut.bus.clone() };
            let mut s = Side::<K>::new(sc.dut.bus.clone(), noreset, rng.u32());
            let mut c = sc.dut.core();
            c.stop = false;
            if rng.chance(7, 8) { d.set_core(&c); let mut w = words_of(&c); s.call(if rng.bool() { SET_REGS } else { SET_BY_POINTER }, 0, std::ptr::null_mut(), 0, &mut w); }
            (d, s, sc.lay, sc.schedule)
        };
        for _ in 0..n { let (d, s, l, sch) = start(&mut rng); duts.push(d); sides.push(s); lays.push(l); schedules.push(sch); }
        cores += n as u64;
        'run: for step in 0..cfg.steps {
            let i = rng.below(n as u64) as usize;
            // Delete and create again.
            if rng.chance(1, if safety { 40 } else { 400 }) {
                let (d, s, l, sch) = start(&mut rng);
                duts[i] = d; sides[i] = s; lays[i] = l; schedules[i] = sch;
                recreated += 1;
                cores += 1;
            }
            let mut op = match rng.below(100) {
                0..=15 => STEP, 16..=39 => STEP_EXC, 40..=49 => DIS, 50..=61 => DIS_EXC, 62..=67 => CYCLE, 68..=73 => CYCLE_EXC, 74..=76 => LOOP, 77..=84 => EXCEPTION,
                85 | 86 => WORD, 87 => LONG, 88 | 89 => PEEK, 90 => REGS, 91 => REGS_MUT, 92 | 93 => GET_REGS, 94..=96 => SET_REGS, _ => SET_BY_POINTER,
            };
            if safety && op < DIS { op += 2; }
            let (d, s) = (&mut duts[i], &mut sides[i]);
            d.bus.log.clear(); d.bus.fuel = d.bus.accesses + 50_000; d.bus.odd = 0;
            s.bus.log.clear(); s.bus.odd = 0;
            let mut arg = 0u64;
            let pre = d.core();
            let mut regs = [0u32; 19];
            let mut want_regs = None;
            // The Rust API first: a call that panics there ends the run (C22 judges it), a panic cannot cross C.
            let mut want = Out::default();
            let mut text: Option<String> = None;
            let mut ok = true;
            match op {
                STEP | STEP_EXC | DIS | DIS_EXC => {
                    let o = d.step([Via::Own, Via::Exc, Via::DisOwn, Via::DisExc][op as usize]);
                    ok = o.panicked.is_none();
                    want.cycles = o.cycles as u64;
                    if op & 1 != 0 { want.exception = o.vector.unwrap_or(0) as u32; }
                    if op >= DIS { want.pc = o.addr; text = Some(o.text); }
                },
                CYCLE | CYCLE_EXC | LOOP => {
                    arg = match rng.below(6) { 0 => 0, 1 => 1, 2 => rng.range(2, 40), 3 => rng.range(1, 2000), _ => rng.range(4, 300) };
                    // Budgets beyond 16 and 32 bits: the latter only end when the CPU is stopped.
                    let mut most = 2000;
                    if pre.stop && rng.bool() { arg = rng.u64() >> rng.range(1, 40); } else if rng.chance(1, 150) { arg = rng.range(60_000, 140_000); most = 40_000; d.bus.fuel += 400_000; }
                    let how = match op { CYCLE => Drive::Cycle(arg as usize), CYCLE_EXC => Drive::UntilExc(arg as usize), _ => Drive::Loop };
                    let mut probe = fork(d);
                    ok = by_steps(&mut probe, how, most).is_some();
                    if ok { match drive(d, how) { Ok((c, v)) => { want.cycles = c as u64; want.exception = v.unwrap_or(0) as u32; }, Err(_) => ok = false } }
                },
                EXCEPTION => {
                    let v = loop { let v = if rng.chance(1, 30) { 0 } else { pick_vector(&mut rng, true) }; if nameable(v) { break v; } };
                    arg = v as u64;
                    d.request(v);
                },
                WORD => match d.cpu.get_next_word(&mut d.bus) { Ok(v) => want.data = v as u32, Err(e) => want.exception = e as u32 },
                LONG => match d.cpu.get_next_long(&mut d.bus) { Ok(v) => want.data = v, Err(e) => want.exception = e as u32 },
                PEEK => match d.cpu.peek_next_word(&mut d.bus) { Ok(v) => want.data = v as u32, Err(e) => want.exception = e as u32 },
                REGS | REGS_MUT | GET_REGS => want_regs = Some(words_of(&pre)),
                _ => {
                    let mut c = gen_core(&mut rng, None, 5);
                    if rng.chance(3, 4) { c.pc = lays[i].prog; c.ssp = lays[i].ssp; c.usp = lays[i].usp; }
                    c.stop = pre.stop;
                    if rng.chance(1, 6) { c.pc |= 1; }
                    if rng.chance(1, 6) { c.ssp |= 1; c.usp |= 1; }
                    d.set_core(&c);
                    regs = words_of(&c);
                },
            }
            if !ok { ends += 1; break 'run; }
            // Then the same from C.
            s.bus.fuel = u64::MAX;
            let full = text.clone().unwrap_or_default();
            let len = if op == DIS || op == DIS_EXC { gen_len(&mut rng, full.len()) } else { 0 };
            let buf = if op == DIS || op == DIS_EXC { unsafe { let p = malloc(len) as *mut c_char; if len > 0 { std::ptr::write_bytes(p, 0x7E, len); } p } } else { std::ptr::null_mut() };
            let got = s.call(op, arg, buf, len as u64, &mut regs);
            calls[op as usize] += 1;
            accesses += s.bus.log.len() as u64;
            faults += s.bus.log.iter().filter(|e| !e.ok).count() as u64;
            if got.exception != 0 { vectors += 1; }
            let mut bad: Vec<(&str, String)> = Vec::new();
            if !safety {
                if got != want { bad.push(("result", format!("returned {got:?}, the Rust API {want:?}"))); }
                if let Some(w) = want_regs { if regs != w { bad.push(("registers-read", format!("read {regs:X?}, they are {w:X?}"))); } }
                if s.bus.log != d.bus.log {
                    let k = s.bus.log.iter().zip(&d.bus.log).position(|(a, b)| a != b).unwrap_or(s.bus.log.len().min(d.bus.log.len()));
                    bad.push(("accesses", format!("access {k} is {:?}, with the Rust API {:?}", s.bus.log.get(k), d.bus.log.get(k))));
                }
                if s.bus.resets != d.bus.resets { bad.push(("reset-line", format!("{} resets of the devices, {} with the Rust API", s.bus.resets, d.bus.resets))); }
            }
            let now = s.regs();
            let exp = words_of(&d.core());
            if now != exp { bad.push(("registers", format!("leaves {now:X?}, the Rust API {exp:X?}"))); }
            if s.stopped() != d.cpu.stop { bad.push(("stop", format!("stopped {}, with the Rust API {}", s.stopped(), d.cpu.stop))); }
            if op == DIS || op == DIS_EXC {
                let b: Vec<u8> = unsafe { std::slice::from_raw_parts(if len == 0 { std::ptr::NonNull::<u8>::dangling().as_ptr() } else { buf as *const u8 }, len) }.to_vec();
                if len > 0 {
                    let k = full.len().min(len - 1);
                    if k < full.len() { truncated += 1 } else { whole += 1 }
                    if b[..k] != full.as_bytes()[..k] || b[k] != 0 { bad.push(("text", format!("buffer of {len} holds {:?}, the text is {full:?}", String::from_utf8_lossy(&b)))); }
                    if b[k + 1..].iter().any(|x| *x != 0x7E) { bad.push(("text", format!("buffer of {len}: bytes after the terminator of {full:?} were written"))); }
                }
                unsafe { free(buf as *mut c_void); }
            }
            if safety {
                // The pointers stay where they are and show the core itself.
                let (p, q) = unsafe { ((K::PTR)(s.core, 1), (K::PTR)(s.core, 0)) };
                if p != s.ptr || q != s.ptr { bad.push(("pointer", format!("registers_mut {p:?} and registers {q:?}, at creation {:?}", s.ptr))); }
                let r = unsafe { &*(s.ptr as *const m68000::Registers) };
                if words_of(&regs_to_core(r, false)) != now { bad.push(("alias", "the register pointer does not show the core's registers".into())); }
            }
            ctx.eval(mix(op as u64 ^ (got.exception as u64) << 8 ^ (pre.sr as u64) << 16 ^ (s.bus.log.len().min(31) as u64) << 32 ^ (len.min(40) as u64) << 40 ^ (decode(d.bus.peek16(pre.pc)).is_some() as u64) << 48 ^ K::ID << 50 ^ (d.bus.peek16(pre.pc) as u64) << 53));
            if !bad.is_empty() {
                for (w, m) in bad { ctx.violation(it, &format!("{}:{w}", NAMES[op as usize]), format!("{} call {step} m68000_*_{}({arg}) at {:08X}: {m}", K::NAME, NAMES[op as usize], pre.pc)); }
                break 'run;
            }
            if matches!(op, STEP_EXC | DIS_EXC | CYCLE_EXC | LOOP) && want.exception != 0 && rng.chance(9, 10) {
                d.request(want.exception as u8);
                s.call(EXCEPTION, want.exception as u64, std::ptr::null_mut(), 0, &mut regs);
            }
            // Stay alive: the same correction on both sides.
            let c = d.core();
            if (c.ssp & 1 != 0 || c.ssp < 0x2000 || c.pc & 1 != 0) && rng.chance(1, 4) {
                let mut c = c;
                c.ssp = lays[i].ssp; c.pc = lays[i].prog;
                d.set_core(&c);
                let mut w = words_of(&c);
                s.call(SET_REGS, 0, std::ptr::null_mut(), 0, &mut w);
            }
            if d.cpu.stop && rng.bool() { d.request(31); s.call(EXCEPTION, 31, std::ptr::null_mut(), 0, &mut regs); }
        }
        if it % 53 == 3 { ctx.sample(|| format!("{} run {it}: {n} cores, last registers {:X?}", K::NAME, sides[0].regs())); }
    }
    for (k, v) in NAMES.iter().zip(calls) { ctx.count(&format!("calls of {k}"), v); }
    for (k, v) in [("runs ended by a panic or an endless run of the Rust API", ends), ("vectors returned", vectors), ("callbacks refusing", faults), ("callbacks made", accesses), ("texts truncated", truncated), ("texts whole", whole), ("cores created", cores), ("cores deleted in mid-history", recreated)] { ctx.count(k, v); }
}

/// Cores created, used and deleted must give back all they allocated.
fn churn<K: CKind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let (mut made, mut callbacks) = (0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut image = vec![0u8; 0x1_0000];
        let code = gen_program(&mut rng, 0x7E00);
        for (i, w) in code.iter().enumerate().take(0x7E00) { image[0x400 + 2 * i] = (*w >> 8) as u8; image[0x401 + 2 * i] = *w as u8; }
        for v in 0..256usize { let a = 0x400 + 2 * rng.below(0x7D00) as usize; image[4 * v + 2] = (a >> 8) as u8; image[4 * v + 3] = a as u8; }
        // Most programs are kept in supervisor mode with sane stacks by the vectors above; anything goes otherwise.
        let live0 = LIVE.with(|c| c.get());
        let n = rng.range(1, 6) as usize;
        let mut cores = [std::ptr::null_mut::<c_void>(); 6];
        let mut kinds = [0u64; 6];
        let mut steps = 0u64;
        unsafe {
            let cb = c_ram_new(image.as_ptr(), image.len() as u32);
            for c in cores.iter_mut().take(n) { *c = (K::NEW)(rng.below(2) as i32); made += 1; }
            let mut o = Out::default();
            let mut regs = [0u32; 19];
            for _ in 0..rng.range(0, 200) {
                let i = rng.below(n as u64) as usize;
                let op = rng.pick(&[STEP, STEP_EXC, DIS, DIS_EXC, EXCEPTION, REGS, GET_REGS]);
                let len = rng.below(48);
                let buf = malloc(len as usize) as *mut c_char;
                let arg = loop { let v = rng.below(65) as u8; if nameable(v) { break v; } };
                (K::CALL)(op, cores[i], cb, arg as u64, buf, len, &mut o, regs.as_mut_ptr());
                free(buf as *mut c_void);
                kinds[i] ^= 1 << op;
                steps += 1;
            }
            // Deleted in any order.
            let mut order = [0usize, 1, 2, 3, 4, 5];
            for k in (1..n).rev() { order.swap(k, rng.below(k as u64 + 1) as usize); }
            for &k in order[..n].iter() { (K::DEL)(cores[k]); }
            callbacks += c_ram_delete(cb) as u64;
        }
        let live1 = LIVE.with(|c| c.get());
        ctx.eval(mix(n as u64 ^ steps << 8 ^ (kinds[0] ^ kinds[n - 1] << 8) << 20 ^ K::ID << 60));
        if live1 != live0 { ctx.violation(it, "leak", format!("{}: {} allocations and {} bytes are left after {n} cores were deleted", K::NAME, live1.0 - live0.0, live1.1 - live0.1)); }
    }
    ctx.count("cores created and deleted", made);
    ctx.count("plain C memory accesses", callbacks);
}

fn layout_unit(ctx: &mut Ctx, unit: u64, its: Range<u64>) { layout::run(ctx, unit, its) }

macro_rules! two { ($u:expr, $f:ident ( $($a:expr),* )) => { if $u % 2 == 0 { $f::<Mc68000>($($a),*) } else { $f::<Scc68070>($($a),*) } } }

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let p = args.first().cloned().unwrap_or_default();
    let case = args.iter().position(|a| a == "--case").and_then(|i| args.get(i + 1)).and_then(|c| {
        let v: Vec<&str> = c.split(':').collect();
        Some((v.first()?.to_string(), v.get(1)?.parse().ok()?, v.get(2)?.parse().ok()?))
    });
    let m = if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) { 40 } else { 1 };
    let opt = |prop: &'static str, rule: &'static str, min: u64| Options { prop, level: "exploration", rule, min_distinct: min, assumptions: vec!["x86-64 Linux System V ABI; C side compiled by clang", "the vectors given to m68000_*_exception are the ones m68000_vector_t names"] };
    let (o, w) = match p.as_str() {
        "C29" => (opt("C29", "distinct (function, returned vector, status register, number of callbacks, buffer length, opcode, processor type) of C calls compared with the Rust API", 50_000),
            vec![work("histories", 64, 250 * m, |c, u, i| two!(u, history(c, u, i, false)))]),
        "C30" => (opt("C30", "distinct (function, returned vector, status register, number of callbacks, buffer length, opcode, processor type) of C calls under AddressSanitizer; create/delete patterns; values read back from C", 50_000), vec![
            work("histories", 64, 160 * m, |c, u, i| two!(u, history(c, u, i, true))),
            work("churn", 64, 60 * m, |c, u, i| two!(u, churn(c, u, i))),
            work("layout", 64, 16 * m, layout_unit),
        ]),
        _ => { eprintln!("unknown property {p}"); std::process::exit(4) },
    };
    // Keeps every function of the interface linked.
    std::hint::black_box(layout::KEEP.0.as_ptr());
    std::process::exit(runner::run(o, w, case));
}
