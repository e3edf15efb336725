//! A host that interferes: edits the machine between steps, handles exceptions itself, rolls back, switches between single
//! steps and drivers (judged in lockstep); and interrupts injected into user programs, which may not notice them
//! (judged by comparing the program's states with those of an undisturbed run).
use crate::bus::*;
use crate::hist::*;
use crate::kinds;
use crate::lockstep::*;
use crate::model::*;
use crate::prog::{drive, fork, Drive};
use crate::rng::*;
use crate::runner::*;
use crate::single::*;
use std::ops::Range;

// ---------------------------------------------------------------- C34

fn hosted_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let c = Cfg { steps: 300, wild: 8, stops: 20, aspects: A_STATE | A_PANIC | A_FAULT, ..CFG };
    let mut n: std::collections::BTreeMap<&'static str, u64> = Default::default();
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut p = Pair::<K>::new(0);
        let mut out: Vec<Diff> = Vec::new();
        p.reset_to(rng.u64());
        p.set_fill(if rng.bool() { Fill::Random } else { Fill::Edge });
        let mut l = install(&mut p, &mut rng, &c, rng_simple(unit, it));
        if rng.below(100) >= c.wild {
            let words = rng.range(16, 160) as usize;
            let code = gen_program(&mut rng, words);
            l.len = 2 * code.len() as u32;
            for (i, w) in code.iter().enumerate() { p.poke16(l.prog.wrapping_add(2 * i as u32), *w); }
            let e = l.prog.wrapping_add(l.len);
            p.poke16(e, 0x4EF9);
            p.poke32(e.wrapping_add(2), l.prog);
        } else { l.len = 200; }
        let mut core = gen_core(&mut rng, None, 5);
        core.pc = l.prog; core.ssp = l.ssp; core.usp = l.usp;
        if rng.below(100) >= c.trace { core.sr &= !T; } else { core.sr |= T; }
        p.set_core(&core);
        if rng.chance(1, 6) { p.set_split(true); }
        let mut saved: Option<(Dut<K>, Model)> = None;
        let mut did = "nothing";
        for step in 0..c.steps {
            if ctx.stopping() { break; }
            // The host interferes.
            if rng.chance(1, 3) {
                let mut k = p.m.c;
                match rng.below(20) {
                    0..=2 => { k.d[rng.below(8) as usize] = rng.operand(); did = "data register edited"; },
                    3 | 4 => { k.a[rng.below(7) as usize] = rng.operand() & if rng.chance(1, 8) { !0 } else { !1 }; did = "address register edited"; },
                    5 => { k.usp = l.usp.wrapping_add(rng.below(64) as u32 * 2); did = "USP edited"; },
                    6 => { k.ssp = l.ssp.wrapping_sub(rng.below(64) as u32 * 2); did = "SSP edited"; },
                    7 | 8 => { k.pc = l.prog.wrapping_add(2 * rng.below(l.len as u64 / 2) as u32); did = "PC edited"; },
                    9 => { k.sr = rng.u16() & 0x271F | if rng.below(100) < c.trace { T } else { 0 }; did = "SR edited"; },
                    10 => { k.sr ^= rng.pick(&[T, S, 0x0700, 0x0100, X, Z, N | V | C]); did = "SR bit edited"; },
                    11 => { k.stop = !k.stop; did = "stop flag edited"; },
                    12..=14 => {
                        let w = gen_program(&mut rng, 1);
                        for (i, x) in w.iter().enumerate() { p.poke16(k.pc.wrapping_add(2 * i as u32) & !1, *x); }
                        did = "next instruction replaced";
                    },
                    15 => { for _ in 0..4 { p.poke16(l.prog.wrapping_add(2 * rng.below(l.len as u64 / 2) as u32), rng.u16()); } did = "program edited"; },
                    16 => { let v = rng.range(2, 255) as u32; let h = p.m.bus.peek32(4 * rng.range(2, 255) as u32); p.poke32(4 * v, h); did = "vector edited"; },
                    17 => { saved = Some((fork(&p.d), p.m.clone())); did = "machine saved"; },
                    18 => if let Some((d, m)) = &saved { p.d = fork(d); p.m = m.clone(); k = p.m.c; did = "machine rolled back" },
                    _ => { let x = p.d.cpu.clone(); p.d.cpu = x; did = "core replaced by its clone" },
                }
                *n.entry(did).or_default() += 1;
                if k != p.m.c { p.set_core(&k); }
            }
            if rng.chance(1, 12) || p.m.c.stop && rng.chance(1, 2) {
                let v = if p.m.c.stop { rng.pick(&[25u8, 27, 31, 57, 61, 63]) } else { pick_vector(&mut rng, false) };
                if !(p.m.c.stop && !(is_int(v) || v == 9)) && !p.m.pending_list().iter().any(|x| ambiguous(*x, v)) { p.request(v); }
            }
            // A whole stretch with a driver: the single steps are judged below, the driver must end in the same place.
            if rng.chance(1, 16) {
                let mut f = fork(&p.d);
                let budget = rng.range(1, 400) as usize;
                let how = if rng.chance(1, 4) { Drive::Loop } else { Drive::UntilExc(budget) };
                let (mut total, mut ended, mut acc) = (0usize, None, 0u64);
                let mut dead = false;
                for _ in 0..300 {
                    if how != Drive::Loop && total >= budget { ended = Some(None); break; }
                    p.step(Via::Exc, &mut out);
                    ctx.eval(mix(p.m.r.op as u64 ^ (p.m.c.sr as u64) << 16 ^ (p.m.r.vector.map_or(0x1FF, |v| v as u64)) << 32 ^ K::ID << 48));
                    if p.known || p.m.r.halt || judge(ctx, it, &p, &out, &c, Via::Exc, step, did) { dead = true; break; }
                    acc += p.d.bus.log.len() as u64;
                    total += p.obs.cycles;
                    if p.m.r.vector.is_some() || p.m.c.stop { ended = Some(p.m.r.vector); break; }
                }
                if dead { break; }
                let Some(vec) = ended else { *n.entry("stretches that do not end soon").or_default() += 1; break };
                f.bus.log.clear();
                f.bus.fuel = f.bus.accesses + acc + 5_000;
                *n.entry("stretches run by a driver").or_default() += 1;
                match drive(&mut f, how) {
                    Err(e) => { ctx.violation(it, "driver:panic", format!("{} {how:?} panicked after {did}: {e}", K::NAME)); break; },
                    Ok((cy, v)) => {
                        let mut bad = String::new();
                        if cy != total { bad += &format!(" {cy} cycles instead of {total}"); }
                        if v != vec { bad += &format!(" vector {v:?} instead of {vec:?}"); }
                        if f.core() != p.d.core() { bad += &format!(" registers{} (single steps right)", f.core().diff(&p.d.core())); }
                        if let Some(a) = f.bus.same_content(&p.d.bus) { bad += &format!(" memory at {a:08X}"); }
                        if !bad.is_empty() { ctx.violation(it, "driver:state", format!("{} {how:?} after {did}, step {step}:{bad}", K::NAME)); break; }
                        f.bus.fuel = u64::MAX;
                        p.d = f;
                    },
                }
            } else {
                let via = rng.pick(&[Via::Exc, Via::Exc, Via::Exc, Via::DisExc, Via::DisExc, Via::Own, Via::DisOwn]);
                p.step(via, &mut out);
                if ctx.replay && std::env::var("MON_TRACE").is_ok() { println!("{step} {did} {via:?} at {:08X} op {:04X} vec {:?}/{:?} taken {:?} pend {:?} SR {:04X} SSP {:08X} PC {:08X}", p.m.r.at, p.m.r.op, p.m.r.vector, p.obs.vector, p.m.r.taken, p.m.pending_list(), p.m.c.sr, p.m.c.ssp, p.m.c.pc); }
                ctx.eval(mix(p.m.r.op as u64 ^ (p.m.c.sr as u64) << 16 ^ (p.m.r.vector.map_or(0x1FF, |v| v as u64)) << 32 ^ (via as u64) << 42 ^ (did.len() as u64) << 44 ^ K::ID << 52));
                if p.known || p.m.r.halt { break; }
                if p.m.r.unspec && matches!(via, Via::Own | Via::DisOwn) { break; }
                if judge(ctx, it, &p, &out, &c, via, step, did) { break; }
                if matches!(via, Via::Own | Via::DisOwn) { did = "nothing"; keep(&mut p, &l, &mut rng); continue; }
            }
            did = "nothing";
            // The host decides what becomes of the exception.
            if let Some(v) = p.m.r.vector {
                let free = |p: &Pair<K>, v: u8| !p.m.pending_list().iter().any(|x| ambiguous(*x, v));
                match rng.below(10) {
                    0..=2 => { did = "exception ignored"; },
                    3..=5 => if free(&p, v) { p.request(v); did = "exception submitted" },
                    6 => { let o = pick_vector(&mut rng, false); if free(&p, o) && !(p.m.c.stop && !is_int(o)) { p.request(o); did = "another exception submitted" } },
                    _ => {
                        // Handled by the host: a system call with parameters in the program, or an emulated instruction.
                        let at = p.m.c.pc;
                        let mut bad = String::new();
                        if (v >= 32 || at & 1 != 0) && rng.bool() {
                            let long = rng.bool();
                            let want = if at & 1 != 0 { Err(3) } else if long { Ok(p.m.bus.peek32(at)) } else { Ok(p.m.bus.peek16(at) as u32) };
                            let d = &mut p.d;
                            let seen = d.cpu.peek_next_word(&mut d.bus);
                            let got = if long { d.cpu.get_next_long(&mut d.bus) } else { d.cpu.get_next_word(&mut d.bus).map(|w| w as u32) };
                            if got != want { bad += &format!(" next {} at {at:08X} {got:X?} instead of {want:X?}", if long { "long" } else { "word" }); }
                            let peek = if at & 1 != 0 { Err(3) } else { Ok(p.m.bus.peek16(at)) };
                            if seen != peek { bad += &format!(" peeked {seen:X?} instead of {peek:X?} at {at:08X}"); }
                            if want.is_ok() { p.m.c.pc = at.wrapping_add(if long { 4 } else { 2 }); }
                            if p.d.core() != p.m.c { bad += &format!(" registers{}", p.d.core().diff(&p.m.c)); }
                            did = "parameter word taken by the host";
                        } else {
                            let mut k = p.m.c;
                            k.pc = if v == 2 || v == 3 || k.pc & 1 != 0 { l.prog } else { k.pc.wrapping_add(2 * rng.below(3) as u32) };
                            k.d[0] = rng.operand();
                            p.set_core(&k);
                            did = "exception handled by the host";
                        }
                        if !bad.is_empty() { ctx.violation(it, "next-word", format!("{} step {step}:{bad}", K::NAME)); break; }
                    },
                }
                *n.entry(did).or_default() += 1;
            }
            keep(&mut p, &l, &mut rng);
        }
        if it % 61 == 7 { ctx.sample(|| format!("{} episode {it}: {:?}", K::NAME, p.m.c)); }
    }
    for (k, v) in n { ctx.count(k, v); }
}

fn rng_simple(unit: u64, it: u64) -> bool { mix(unit ^ it << 20) & 1 == 0 }

fn keep<K: Kind>(p: &mut Pair<K>, l: &Layout, rng: &mut Rng) {
    if (p.m.c.ssp & 1 != 0 || p.m.c.ssp < 0x2000) && rng.chance(1, 6) { let mut k = p.m.c; k.ssp = l.ssp; p.set_core(&k); }
    if p.m.c.pc & 1 != 0 && rng.chance(1, 6) { let mut k = p.m.c; k.pc = l.prog; p.set_core(&k); }
}

/// Reports the relevant differences; true when the machines differ.
fn judge<K: Kind>(ctx: &mut Ctx, it: u64, p: &Pair<K>, out: &[Diff], c: &Cfg, via: Via, step: u64, did: &str) -> bool {
    for d in out {
        if d.aspect & c.aspects != 0 {
            let name = if p.m.r.fetched { op_name(p.m.r.op) } else { "no-instruction" };
            let msg = describe(K::NAME, &p.pre, p.m.r.op, &exts(p), via, d) + &format!("; step {step}, host: {did}, taken {:?}, raised {:?}", p.m.r.taken, p.m.r.vector);
            ctx.violation(it, &format!("{name}:{}", aspect_name(d.aspect & c.aspects)), msg);
        }
    }
    !out.is_empty()
}

// ---------------------------------------------------------------- C36

/// Everything a user program can see of the processor; the supervisor stack pointer shows that frames are balanced.
struct World<K: Kind> { d: Dut<K>, prog: u32, win: (u32, u32) }

fn world<K: Kind>(rng: &mut Rng) -> World<K> {
    let mut bus = Bus::new(rng.u64());
    bus.fill = if rng.bool() { Fill::Random } else { Fill::Edge };
    let prog = 0x0002_0000 + (rng.below(0x1000) as u32) * 2 + if rng.chance(1, 4) { rng.u32() & 0xFFF0_0000 } else { 0 };
    let ssp = (rng.u32() & 0x7FFF_FFFE | 0x0100_0000).wrapping_add(if rng.bool() { 0x8000_0000 } else { 0 }) & 0xFFFF_0FFE | 0x8000;
    let win = (ssp.wrapping_sub(0x4000), ssp.wrapping_add(0x100));
    let counter = ssp.wrapping_add(0x20);
    bus.poke32(counter, 0);
    let hbase = 0x0001_0000u32;
    for v in 2..256u32 {
        let h = hbase + v * 0x60;
        bus.poke32(4 * v, h);
        let mut code: Vec<u16> = Vec::new();
        match v {
            2 | 3 => {
                if K::FMT == Fmt::M68k { code.push(0x508F); }
                code.extend([0x2F7C, (prog >> 16) as u16, prog as u16, 2]);
            },
            4 | 8 | 10 | 11 => code.extend([0x54AF, 2]),
            9 => code.extend([0x52B9, (counter >> 16) as u16, counter as u16]),
            24..=31 | 57..=255 => {
                code.extend([0x48E7, 0xFFFE]);
                for _ in 0..rng.below(6) {
                    let r = rng.below(8) as u16;
                    match rng.below(11) {
                        0 => code.extend([0x203C | r << 9, rng.u16(), rng.u16()]),
                        1 => code.extend([0x41F8 | r.min(6) << 9, rng.u16()]),
                        2 => code.extend([0x44FC, rng.u16() & 0x1F]),
                        3 => code.push(0x4E40 | rng.below(16) as u16),
                        4 => code.extend([0x4E68, 0x43E8, rng.u16(), 0x4E61, 0x4E60]),
                        5 => code.extend([0x007C, 0x8000]),
                        6 => code.extend([0x40C0 | r, 0x4440 | r]),
                        7 => code.push(0xD080 | r << 9 | rng.below(8) as u16),
                        8 => code.extend([0x46FC, 0x2000 | (rng.below(8) as u16) << 8 | rng.u16() & 0x1F]),
                        9 => code.push(0x4E71),
                        _ => code.extend([0x2F00 | r, 0x201F | r << 9]),
                    }
                }
                // The mask is restored by RTE; tracing ends before the registers come back.
                if rng.bool() { code.extend([0x027C, 0x7FFF]); }
                code.extend([0x4CDF, 0x7FFF]);
            },
            // No handler returns in the step that enters it.
            _ => code.push(0x4E71),
        }
        code.push(0x4E73);
        assert!(code.len() * 2 <= 0x60);
        for (i, w) in code.iter().enumerate() { bus.poke16(h + 2 * i as u32, *w); }
    }
    let words = rng.range(12, 120) as usize;
    let code = gen_program(rng, words);
    for (i, w) in code.iter().enumerate() { bus.poke16(prog.wrapping_add(2 * i as u32), *w); }
    let e = prog.wrapping_add(2 * code.len() as u32);
    bus.poke16(e, 0x4EF9);
    bus.poke32(e.wrapping_add(2), prog);
    bus.holes.push((0, 0x3FF, false, true));
    bus.holes.push((hbase, hbase + 0x100 * 0x60, false, true));
    if rng.chance(1, 3) { let a = rng.u32() | 0x100; if a.wrapping_sub(win.0) > 0x8000 && a.wrapping_sub(prog.wrapping_sub(0x1000)) > 0x3000 && a.wrapping_sub(hbase) > 0x10000 { bus.holes.push((a, a | 0xFF, true, true)); } }
    if rng.chance(1, 6) { bus.split = true; }
    let mut core = gen_core(rng, Some(false), 5);
    core.pc = prog; core.ssp = ssp;
    core.usp = 0x000C_0000 + (rng.below(0x4000) as u32) * 2;
    core.sr = core.sr & 0x1F | if rng.chance(1, 3) { T } else { 0 } | rng.pick(&[0, 0, 0, 1, 3, 5, 6, 7]) << 8;
    let mut d = Dut::<K>::new(bus);
    d.set_core(&core);
    World { d, prog, win }
}

/// States after every instruction executed in user mode, with the exception it raised.
struct Walk { states: Vec<(Core, Option<u8>)>, steps: u64, foreign: bool, panicked: Option<String>, nested: u64, injected: u64, taken: u64, raised: u64 }

/// Runs until `want` different user states in a row were seen; `inject` adds interrupts.
fn walk<K: Kind>(w: &mut World<K>, want: usize, max: u64, mut inject: Option<&mut Rng>, rate: u64) -> Walk {
    let mut o = Walk { states: vec![(w.d.core(), None)], steps: 0, foreign: false, panicked: None, nested: 0, injected: 0, taken: 0, raised: 0 };
    let mut waiting: Vec<u8> = Vec::new();
    let mut last: Option<u8> = None;
    while o.states.len() < want && o.steps < max {
        o.steps += 1;
        let pre = w.d.core();
        if let Some(rng) = inject.as_deref_mut() {
            if !matches!(last, Some(2 | 3)) && rng.below(if pre.sup() { 1500 } else { 100 }) < rate {
                for _ in 0..rng.pick(&[1u64, 1, 1, 2]) {
                    let v = match rng.below(8) { 0..=3 => rng.range(25, 31) as u8, 4 | 5 => rng.range(57, 63) as u8, 6 => 24, _ => rng.range(64, 255) as u8 };
                    if waiting.len() > 6 || waiting.contains(&v) || waiting.iter().any(|x| ambiguous(*x, v)) || last.map_or(false, |l| ambiguous(l, v)) { continue; }
                    if pre.ssp.wrapping_sub(w.win.0) < 0x1000 { continue; }
                    w.d.request(v);
                    waiting.push(v);
                    o.injected += 1;
                    if pre.sup() { o.nested += 1; }
                }
            }
        }
        w.d.bus.log.clear();
        w.d.bus.fuel = w.d.bus.accesses + 20_000;
        let obs = w.d.step(Via::Exc);
        if let Some(p) = obs.panicked { o.panicked = Some(p); return o; }
        last = obs.vector;
        if let Some(v) = obs.vector { o.raised += 1; w.d.request(v); }
        let post = w.d.core();
        let log = std::mem::take(&mut w.d.bus.log);
        if !waiting.is_empty() { let n = waiting.len(); waiting.retain(|v| !log.iter().any(|e| !e.write && e.addr == 4 * *v as u32)); o.taken += (n - waiting.len()) as u64; }
        if !pre.sup() && !post.sup() && log.iter().any(|e| e.addr.wrapping_sub(w.win.0) < w.win.1 - w.win.0) { o.foreign = true; return o; }
        w.d.bus.log = log;
        if !pre.sup() && !post.sup() { o.states.push((post, obs.vector)); }
    }
    o
}

fn transparent_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let (mut runs, mut inj, mut nested, mut taken, mut states, mut raised, mut cut, mut traces) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut a = world::<K>(&mut rng);
        let want = rng.range(20, 160) as usize;
        let mut bs: Vec<World<K>> = (0..2).map(|_| World { d: fork(&a.d), prog: a.prog, win: a.win }).collect();
        let ra = walk(&mut a, want, 1500, None, 0);
        if ra.foreign || ra.panicked.is_some() || ra.states.len() < 4 { cut += 1; continue; }
        for b in bs.iter_mut() {
            let rate = rng.pick(&[3u64, 10, 25, 60]);
            let rb = walk(b, ra.states.len(), 40_000, Some(&mut rng), rate);
            runs += 1;
            inj += rb.injected; nested += rb.nested; taken += rb.taken; states += rb.states.len() as u64; raised += rb.raised;
            for (s, _) in &rb.states { ctx.eval(mix(s.pc as u64 ^ (s.sr as u64) << 32 ^ K::ID << 48 ^ (rb.injected.min(63)) << 52 ^ mix(s.d[0] as u64 ^ s.a[0] as u64))); }
            if rb.foreign { cut += 1; continue; }
            if let Some(p) = rb.panicked { ctx.violation(it, "panic", format!("{} panicked in an interrupted run only: {p}", K::NAME)); break; }
            if let Some(i) = ra.states.iter().zip(&rb.states).position(|(x, y)| x != y) {
                let ((x, vx), (y, vy)) = (&ra.states[i], &rb.states[i]);
                let before = &ra.states[i - 1].0;
                let op = a.d.bus.peek16(before.pc);
                ctx.violation(it, &format!("state:{}", op_name(op)), format!("{}: after the user instruction at {:08X} (opcode {op:04X}, state {i} of the run) interrupts change{} (undisturbed right), raised {vy:?} instead of {vx:?}; {} interrupts injected, {} taken, {} nested", K::NAME, before.pc, y.diff(x), rb.injected, rb.taken, rb.nested));
                break;
            }
            if rb.states.len() < ra.states.len() {
                // The mask of level 7 and a handler that cannot return in time would show here.
                { ctx.violation(it, "progress", format!("{}: {} of {} user states reached in {} steps with {} interrupts", K::NAME, rb.states.len(), ra.states.len(), rb.steps, rb.injected)); break; }
            }
            if ra.states.len() == want {
                let in_win = |x: u32| x.wrapping_sub(b.win.0) < b.win.1 - b.win.0;
                let mut keys: Vec<u32> = a.d.bus.overlay().keys().chain(b.d.bus.overlay().keys()).copied().collect();
                keys.sort_unstable(); keys.dedup();
                if let Some(k) = keys.iter().find(|k| !in_win(**k << 1) && a.d.bus.peek16(**k << 1) != b.d.bus.peek16(**k << 1)) {
                    ctx.violation(it, "memory", format!("{}: memory at {:08X} is {:04X} in the interrupted run, {:04X} in the undisturbed one", K::NAME, k << 1, b.d.bus.peek16(*k << 1), a.d.bus.peek16(*k << 1)));
                    break;
                }
                traces += ra.states.iter().filter(|s| s.1 == Some(9)).count() as u64;
            }
        }
        if it % 61 == 7 { ctx.sample(|| format!("{} program at {:08X}: {} user states in {} steps, last {:?}", K::NAME, a.prog, ra.states.len(), ra.steps, ra.states.last())); }
    }
    for (k, v) in [("interrupted runs", runs), ("interrupts injected", inj), ("of these while a handler was running", nested), ("interrupts taken", taken), ("user states compared", states), ("exceptions raised by the programs and handlers", raised), ("traces of user instructions", traces), ("runs not judged (program touches the supervisor stack or does not run)", cut)] { ctx.count(k, v); }
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let _ = thorough;
    let k = if thorough { 25 } else { 1 };
    let o = |prop, rule, min| opts(prop, rule, min);
    Some(match p {
        "C34" => (o("C34", "distinct (opcode, status register, raised vector, stepping function, host action, CPU type) observed under a host that edits, ignores, substitutes, emulates, saves and rolls back", 50_000),
            vec![work("hosted", 64, 12 * k, |c, u, i| kinds!(u, hosted_unit(c, u, i)))]),
        "C36" => (o("C36", "distinct user-mode states (PC, SR, data, number of interrupts, CPU type) compared between an interrupted and an undisturbed run", 20_000),
            vec![work("interrupted", 64, 12 * k, |c, u, i| kinds!(u, transparent_unit(c, u, i)))]),
        _ => return None,
    })
}
