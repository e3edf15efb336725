//! A short history of C-interface calls, interpreted by Miri (undefined behaviour: aliasing, bounds, uninitialised data,
//! invalid values, use after free, leaks). Same calls as the AddressSanitizer runs of ../ffi, in far smaller numbers.
use m68000::exception::Vector;
use m68000_ffi::*;
use std::ffi::c_void;
use std::os::raw::c_char;

struct Ram { bytes: Vec<u8>, refuse_from: u32, refuse_to: u32, resets: u32, calls: u32 }
impl Ram {
    fn at(&mut self, a: u32, n: u32) -> Option<usize> {
        self.calls += 1;
        let a = a & 0xFFFF;
        if a + n > self.refuse_from && a < self.refuse_to || a + n > 0x10000 { None } else { Some(a as usize) }
    }
}
fn res(d: Option<u32>) -> m68000_memory_result_t { match d { Some(data) => m68000_memory_result_t { data, exception: 0 }, None => m68000_memory_result_t { data: 0xDEAD_BEEF, exception: 2 } } }
fn ram<'a>(p: *mut c_void) -> &'a mut Ram { unsafe { &mut *(p as *mut Ram) } }
fn get(p: *mut c_void, a: u32, n: u32) -> m68000_memory_result_t { let r = ram(p); let i = r.at(a, n); res(i.map(|i| r.bytes[i..i + n as usize].iter().fold(0, |x, b| x << 8 | *b as u32))) }
fn set(p: *mut c_void, a: u32, n: u32, d: u32) -> m68000_memory_result_t { let r = ram(p); let i = r.at(a, n); res(i.map(|i| { for k in 0..n { r.bytes[i + k as usize] = (d >> (8 * (n - 1 - k))) as u8; } 0x5555_5555 })) }
extern "C" fn gb(a: u32, p: *mut c_void) -> m68000_memory_result_t { get(p, a, 1) }
extern "C" fn gw(a: u32, p: *mut c_void) -> m68000_memory_result_t { get(p, a, 2) }
extern "C" fn gl(a: u32, p: *mut c_void) -> m68000_memory_result_t { get(p, a, 4) }
extern "C" fn sb(a: u32, d: u8, p: *mut c_void) -> m68000_memory_result_t { set(p, a, 1, d as u32) }
extern "C" fn sw(a: u32, d: u16, p: *mut c_void) -> m68000_memory_result_t { set(p, a, 2, d as u32) }
extern "C" fn sl(a: u32, d: u32, p: *mut c_void) -> m68000_memory_result_t { set(p, a, 4, d) }
extern "C" fn rs(p: *mut c_void) { ram(p).resets += 1; }

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn below(&mut self, n: u64) -> u64 { (self.next() >> 11) % n }
}

macro_rules! history {
    ($name:ident, $m:ident, $new:ident, $new_no:ident, $del:ident, $step:ident, $step_exc:ident, $dis:ident, $dis_exc:ident, $cycle:ident, $cycle_exc:ident, $exc:ident, $gnw:ident, $gnl:ident, $pnw:ident, $regs:ident, $regs_mut:ident, $get:ident, $set:ident) => {
        fn $name(seed: u64, n: u32) -> (u32, u32, u32) {
            use m68000_ffi::$m::*;
            let mut g = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
            let mut bytes: Vec<u8> = (0..0x10000u32).map(|i| ((i.wrapping_mul(2654435761).wrapping_add(seed as u32)) >> 13) as u8).collect();
            // A program of straightforward instructions, one TRAP and one illegal word, in a loop; handlers return.
            let prog: [u16; 22] = [0x7001, 0xD080, 0x2240, 0x3140, 0x0010, 0x4841, 0x48E7, 0xFFFE, 0x4CDF, 0x7FFF, 0xE388, 0x4E41, 0xC0C1, 0x51C8, 0xFFFC, 0x4E70, 0x4AFC, 0x4E71, 0x4EF8, 0x1000, 0x4E71, 0x4E71];
            for (i, w) in prog.iter().enumerate() { bytes[0x1000 + 2 * i] = (*w >> 8) as u8; bytes[0x1001 + 2 * i] = *w as u8; }
            for v in 0..256usize { bytes[4 * v..4 * v + 4].copy_from_slice(&[0, 0, 0x20, 0]); }
            bytes[0..8].copy_from_slice(&[0, 0, 0x80, 0, 0, 0, 0x10, 0]);
            // Handler: reload the supervisor stack and jump to the program.
            for (i, w) in [0x4FF8u16, 0x8000, 0x4EF8, 0x1000].iter().enumerate() { bytes[0x2000 + 2 * i] = (*w >> 8) as u8; bytes[0x2001 + 2 * i] = *w as u8; }
            let user = Box::into_raw(Box::new(Ram { bytes, refuse_from: 0xF000, refuse_to: 0xF800, resets: 0, calls: 0 }));
            let cb = Box::into_raw(Box::new(m68000_callbacks_t { get_byte: gb, get_word: gw, get_long: gl, set_byte: sb, set_word: sw, set_long: sl, reset_instruction: rs, user_data: user as *mut c_void }));
            let (mut calls, mut texts) = (0, 0);
            unsafe {
                let mut core = if g.below(2) == 0 { $new() } else { $new_no() };
                let mut ptr = $regs_mut(core);
                (*ptr).pc.0 = 0x1000; (*ptr).ssp.0 = 0x8000; (*ptr).usp.0 = 0x9000;
                for _ in 0..n {
                    calls += 1;
                    match g.below(16) {
                        0 | 1 => { $step(core, cb); },
                        2 | 3 => { let r = $step_exc(core, cb); if r.exception == 47 { $exc(core, Vector::Trap15Instruction); } },
                        k @ 4..=8 => {
                            let len = match g.below(5) { 0 => 0, 1 => 1, 2 => 2, 3 => g.below(12), _ => 40 } as usize;
                            // Exact-size heap buffer without initialisation.
                            let lay = std::alloc::Layout::from_size_align(len.max(1), 1).unwrap();
                            let buf = std::alloc::alloc(lay) as *mut c_char;
                            let p = if len == 0 { buf.add(1) } else { buf };
                            if k < 7 { $dis(core, cb, p, len); } else { $dis_exc(core, cb, p, len); }
                            if len > 0 { let s = std::ffi::CStr::from_ptr(buf).to_bytes().len(); assert!(s < len, "the text of {s} bytes does not fit the buffer of {len}"); texts += 1; }
                            std::alloc::dealloc(buf as *mut u8, lay);
                        },
                        9 => { $cycle(core, cb, g.below(60) as usize); },
                        10 => { let _ = $cycle_exc(core, cb, g.below(60) as usize); },
                        11 => { $exc(core, [Vector::Level7Interrupt, Vector::Trace, Vector::Trap0Instruction, Vector::UserInterrupt, Vector::ResetSspPc, Vector::AccessError][g.below(6) as usize]); },
                        12 => { let (a, b, c) = ($pnw(core, cb), $gnw(core, cb), $gnl(core, cb)); assert!(a.exception == b.exception && a.data == b.data); let _ = c; },
                        13 => {
                            // Kept pointers and copies see the same registers; both ways of writing reach the core.
                            let mut r = $get(core);
                            assert!(r == *$regs(core) && r == *ptr && $regs_mut(core) == ptr);
                            r.d[3].0 = g.next() as u32; r.pc.0 = 0x1000; r.ssp.0 = 0x8000;
                            $set(core, r);
                            assert!(*ptr == r);
                            (*ptr).d[4].0 ^= 0x55;
                            assert!($get(core).d[4].0 == r.d[4].0 ^ 0x55);
                        },
                        14 => { (*ptr).pc.0 = 0x1000; (*ptr).ssp.0 = if g.below(4) == 0 { 0x7F00 } else { 0x8000 }; },
                        _ => { if g.below(4) == 0 { $del(core); core = if g.below(2) == 0 { $new() } else { $new_no() }; ptr = $regs_mut(core); (*ptr).pc.0 = 0x1000; (*ptr).ssp.0 = 0x8000; } },
                    }
                    // Keep away from the fetch of a refused extension word (a known finding of C22: it panics).
                    if (*ptr).pc.0 & 0xFFFF >= 0x9000 || (*ptr).pc.0 & 1 != 0 { (*ptr).pc.0 = 0x1000; }
                    // and from a stack that faults while an access or address error is processed (a documented panic).
                    let ssp = (*ptr).ssp.0; if ssp & 1 != 0 || ssp < 0x4000 || ssp > 0x9000 { (*ptr).ssp.0 = 0x8000; }
                }
                $del(core);
                drop(Box::from_raw(cb));
                let u = Box::from_raw(user);
                (calls, texts, u.calls)
            }
        }
    };
}
history!(mc, mc68000, m68000_mc68000_new, m68000_mc68000_new_no_reset, m68000_mc68000_delete, m68000_mc68000_interpreter, m68000_mc68000_interpreter_exception, m68000_mc68000_disassembler_interpreter, m68000_mc68000_disassembler_interpreter_exception, m68000_mc68000_cycle, m68000_mc68000_cycle_until_exception, m68000_mc68000_exception, m68000_mc68000_get_next_word, m68000_mc68000_get_next_long, m68000_mc68000_peek_next_word, m68000_mc68000_registers, m68000_mc68000_registers_mut, m68000_mc68000_get_registers, m68000_mc68000_set_registers);
history!(scc, scc68070, m68000_scc68070_new, m68000_scc68070_new_no_reset, m68000_scc68070_delete, m68000_scc68070_interpreter, m68000_scc68070_interpreter_exception, m68000_scc68070_disassembler_interpreter, m68000_scc68070_disassembler_interpreter_exception, m68000_scc68070_cycle, m68000_scc68070_cycle_until_exception, m68000_scc68070_exception, m68000_scc68070_get_next_word, m68000_scc68070_get_next_long, m68000_scc68070_peek_next_word, m68000_scc68070_registers, m68000_scc68070_registers_mut, m68000_scc68070_get_registers, m68000_scc68070_set_registers);

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (seed, n) = (a.first().copied().unwrap_or(1), a.get(1).copied().unwrap_or(400) as u32);
    let (x, y) = (mc(seed, n), scc(seed + 1000, n));
    println!("miri: {} calls, {} texts, {} memory callbacks", x.0 + y.0, x.1 + y.1, x.2 + y.2);
}
