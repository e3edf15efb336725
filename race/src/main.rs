//! Cores and the pure functions of the crate used on several threads at once, nothing shared between them, under
//! ThreadSanitizer (C31): any data race reported is state of the crate's own that two cores share.
//! Happens-before analysis reports such state even when no two threads ever collide in it.
#![allow(dead_code)]
#[path = "../../mon/src/bus.rs"] mod bus;
#[path = "../../mon/src/rng.rs"] mod rng;
#[path = "../../mon/src/isa68k.rs"] mod isa68k;
#[path = "../../mon/src/timing.rs"] mod timing;
#[path = "../../mon/src/model.rs"] mod model;
#[path = "../../mon/src/lockstep.rs"] mod lockstep;
#[path = "../../mon/src/runner.rs"] mod runner;
#[path = "../../mon/src/single.rs"] mod single;
#[path = "../../mon/src/grid.rs"] mod grid;
#[path = "../../mon/src/hist.rs"] mod hist;
#[path = "../../mon/src/exc.rs"] mod exc;
#[path = "../../mon/src/prog.rs"] mod prog;
#[path = "../../mon/src/asmapi.rs"] mod asmapi;

use hist::*;
use prog::*;
use rng::*;
use asmapi::call_of;
use m68000::instruction::Instruction;
use m68000::MemoryAccess;
use std::sync::{Barrier, Mutex};

static mut SHARED: u64 = 0;
/// A race on purpose, to see that the detector works in this place.
fn probe() {
    let go = Barrier::new(2);
    std::thread::scope(|s| for _ in 0..2 { s.spawn(|| { go.wait(); let p = &raw mut SHARED; unsafe { p.write_volatile(p.read_volatile() + 1); } }); });
}

/// Decoding, disassembly, assembly and value conversions of one thread; the digest depends on the seed only.
fn texts(seed: u64, n: u64, counts: &mut [u64; 3]) -> u64 {
    let mut rng = Rng::new(seed);
    let mut h = 0u64;
    for _ in 0..n {
        let mut w = vec![0u16; 6];
        for x in &mut w { *x = rng.u64() as u16; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut it = w[..].iter_u16(0);
            let i = Instruction::from_memory(&mut it).ok()?;
            let t = i.disassemble();
            let words = call_of(m68000::isa::Isa::from(i.opcode), i.operands, i.opcode).map(|c| c.invoke());
            Some((t, words))
        }));
        counts[0] += 1;
        if let Ok(Some((t, ws))) = r {
            counts[1] += 1;
            for b in t.bytes() { h = h.rotate_left(7) ^ b as u64; }
            for v in ws.into_iter().flatten() { h = mix(h ^ v as u64); counts[2] += 1; }
        }
        let s = m68000::status_register::StatusRegister::from(rng.u64() as u16);
        h = mix(h ^ u16::from(s) as u64);
        for b in format!("{s:?}").bytes() { h = h.rotate_left(7) ^ b as u64; }
    }
    h
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "probe" { return probe(); }
    std::panic::set_hook(Box::new(|_| {}));
    let (seed, rounds): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let cfg = Cfg { holes: true, steps: 200, req: 40, wild: 20, ..CFG };
    let (mut runs, mut steps) = (0u64, 0u64);
    let counts = Mutex::new([0u64; 3]);
    let mut ops = std::collections::HashSet::new();
    for r in 0..rounds {
        let mut rng = Rng::new(mix(seed ^ r << 32));
        // Two machines, each on two threads (clones of each other), and two threads that only decode, print and assemble.
        let start: Vec<Box<dyn Steps>> = (0..2).map(|_| machine(&mut rng, &cfg)).collect();
        let ts = rng.u64();
        let go = Barrier::new(6);
        let (res, txt): (Vec<Run>, Vec<u64>) = std::thread::scope(|s| {
            let (go, counts) = (&go, &counts);
            let hs: Vec<_> = (0..4).map(|k: usize| { let mut m = start[k / 2].dup(); s.spawn(move || { go.wait(); while m.advance(cfg.steps) {} m.result() }) }).collect();
            let ht: Vec<_> = (0..2).map(|_| s.spawn(move || { go.wait(); let mut c = [0; 3]; let h = texts(ts, 60, &mut c); let mut t = counts.lock().unwrap(); for i in 0..3 { t[i] += c[i]; } h })).collect();
            (hs.into_iter().map(|h| h.join().unwrap()).collect(), ht.into_iter().map(|h| h.join().unwrap()).collect())
        });
        for k in 0..2 { if !same(&res[2 * k], &res[2 * k + 1]) { println!("DIVERGED: two clones of one machine on two threads, round {r}"); std::process::exit(67); } }
        if txt[0] != txt[1] { println!("DIVERGED: decoding and printing the same words on two threads, round {r}"); std::process::exit(67); }
        for x in &res { runs += 1; steps += x.steps; ops.insert(x.hash); }
    }
    let c = counts.into_inner().unwrap();
    println!("race: {runs} runs on concurrent threads, {steps} steps, {} distinct traces, {} words decoded, {} texts, {} words assembled", ops.len(), c[0], c[1], c[2]);
}
