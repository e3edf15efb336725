//! Whole-run monitors without a reference machine: the crate compared with itself (stepping functions, drivers, clones,
//! threads), and hostile guests.
use crate::bus::*;
use crate::hist::*;
use crate::kinds;
use crate::lockstep::*;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::single::*;
use m68000::exception::Exception;
use m68000::M68000;
use std::ops::Range;

/// A start situation: memory with a program and handlers, registers, and a schedule of requests.
pub struct Scene<K: Kind> { pub dut: Dut<K>, pub lay: Layout, pub schedule: Vec<(u64, u8)> }

pub fn scene<K: Kind>(rng: &mut Rng, c: &Cfg) -> Scene<K> {
    let mut p = Pair::<K>::new(0);
    p.reset_to(rng.u64());
    p.set_fill(if rng.bool() { Fill::Random } else { Fill::Edge });
    let mut l = install(&mut p, rng, c, false);
    if rng.below(100) >= c.wild {
        let n = rng.range(16, 120) as usize;
        let code = gen_program(rng, n);
        l.len = 2 * code.len() as u32;
        for (i, w) in code.iter().enumerate() { p.poke16(l.prog.wrapping_add(2 * i as u32), *w); }
        let e = l.prog.wrapping_add(l.len);
        p.poke16(e, 0x4EF9);
        p.poke32(e.wrapping_add(2), l.prog);
    }
    let mut core = gen_core(rng, c.user.map(|u| !u), 5);
    core.pc = l.prog; core.ssp = l.ssp; core.usp = l.usp;
    if rng.below(100) >= c.trace { core.sr &= !T; } else { core.sr |= T; }
    for _ in 0..rng.below(3) { core.a[rng.below(7) as usize] = l.prog.wrapping_add(2 * rng.below(40) as u32); }
    p.set_core(&core);
    if c.holes && rng.bool() {
        for _ in 0..rng.range(1, 3) {
            let near = match rng.below(8) { 0 => l.prog.wrapping_add(2 * rng.below(100) as u32), 1 => l.ssp.wrapping_sub(rng.below(128) as u32), 2 => l.usp.wrapping_sub(rng.below(64) as u32), 3 => core.a[rng.below(7) as usize], 4 => rng.below(0x400) as u32, _ => rng.u32() };
            let len = rng.pick(&[0u32, 1, 3, 15, 0xFFFF, 0x0FFF_FFFF]);
            let (r, w) = rng.pick(&[(true, true), (true, true), (false, true), (true, false)]);
            p.hole(near, near.saturating_add(len), r, w);
        }
    }
    if rng.chance(1, 8) { p.set_split(true); }
    let mut schedule = Vec::new();
    for s in 0..c.steps { if rng.below(1000) < c.req { for _ in 0..rng.pick(&[1u64, 1, 2, 3]) { schedule.push((s, if rng.chance(1, 40) { 0 } else { pick_vector(rng, c.ints) })); } } }
    // Something always wakes a stopped processor eventually.
    for s in (20..c.steps).step_by(37) { schedule.push((s, if s % 2 == 0 { 31 } else { 63 })); }
    schedule.sort_by_key(|x| x.0);
    let mut dut = Dut::<K>::new(p.d.bus.clone());
    dut.set_core(&core);
    if rng.chance(1, 16) { dut.request(0); }
    Scene { dut, lay: l, schedule }
}

pub fn fork<K: Kind>(d: &Dut<K>) -> Dut<K> { Dut { cpu: d.cpu.clone(), bus: d.bus.clone() } }

/// Registers gone astray are pulled back so that runs stay interesting; the same rule is applied to every copy.
fn keep_alive<K: Kind>(d: &mut Dut<K>, l: &Layout, step: u64, astray: &mut u32) {
    let c = d.core();
    if c.ssp & 1 != 0 || c.ssp < 0x2000 { *astray += 1; } else { *astray = 0; }
    if *astray > 6 { d.cpu.regs.ssp.0 = l.ssp; *astray = 0; }
    if c.pc & 1 != 0 && step % 8 == 3 { d.cpu.regs.pc.0 = l.prog; }
}

// ---------------------------------------------------------------- C19

fn stepping_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: true, steps: 250, req: 40, wild: 25, ..CFG };
    let (mut steps, mut texts, mut empty, mut vectors, mut halts) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let sc = scene::<K>(&mut rng, &cfg);
        let mut d: Vec<Dut<K>> = (0..4).map(|_| fork(&sc.dut)).collect();
        let mut next = 0;
        let mut astray = [0u32; 4];
        'run: for s in 0..cfg.steps {
            while next < sc.schedule.len() && sc.schedule[next].0 <= s { for x in d.iter_mut() { x.request(sc.schedule[next].1); } next += 1; }
            let pre = d[0].core();
            let mut obs = Vec::with_capacity(4);
            for (k, x) in d.iter_mut().enumerate() {
                x.bus.log.clear();
                x.bus.odd = 0;
                x.bus.fuel = x.bus.accesses + 20_000;
                let o = x.step(VIAS[k]);
                obs.push(o);
            }
            steps += 1;
            let op = { let a = if obs[2].text.is_empty() { pre.pc } else { obs[2].addr }; d[0].bus.log.iter().find(|e| !e.write && e.addr == a && e.size == 2).map_or(0, |e| e.val as u16) };
            let name = if obs[2].text.is_empty() { "no-instruction" } else { op_name(op) };
            let mut bad: Vec<(&str, String)> = Vec::new();
            let np = obs.iter().filter(|o| o.panicked.is_some()).count();
            if np == 4 { halts += 1; break 'run; }
            if np != 0 { bad.push(("panic", format!("{:?}", obs.iter().map(|o| o.panicked.clone()).collect::<Vec<_>>()))); }
            for k in 1..4 {
                if np != 0 { break; }
                if d[k].core() != d[0].core() { bad.push(("registers", format!("{:?} leaves{} ({:?} is the right-hand side)", VIAS[k], d[k].core().diff(&d[0].core()), VIAS[0]))); }
                if obs[k].cycles != obs[0].cycles { bad.push(("cycles", format!("{:?} reports {} cycles, {:?} {}", VIAS[k], obs[k].cycles, VIAS[0], obs[0].cycles))); }
                if d[k].bus.log != d[0].bus.log {
                    let i = d[k].bus.log.iter().zip(&d[0].bus.log).position(|(a, b)| a != b).unwrap_or(d[k].bus.log.len().min(d[0].bus.log.len()));
                    bad.push(("accesses", format!("{:?} makes access {i} {:?}, {:?} {:?}", VIAS[k], d[k].bus.log.get(i), VIAS[0], d[0].bus.log.get(i))));
                }
                if d[k].bus.resets != d[0].bus.resets { bad.push(("reset-line", "different number of reset requests".into())); }
            }
            if np == 0 && obs[2].vector != obs[0].vector { bad.push(("vector", format!("{:?} reports {:?}, {:?} {:?}", VIAS[2], obs[2].vector, VIAS[0], obs[0].vector))); }
            // An instruction was executed when its first word could be read.
            if np == 0 {
                let ran = !(pre.stop && d[0].bus.log.is_empty() && obs[0].cycles == 0) && {
                    // The last exception-processing access is the read of a vector; the fetch follows it.
                    let fetch_failed = obs[0].vector.map_or(false, |v| v == 2 && d[0].bus.log.last().map_or(false, |e| !e.ok && !e.write && e.size == 2 && e.addr == d[0].core().pc.wrapping_sub(2)) || v == 3 && d[0].core().pc & 1 != 0 && obs[2].text.is_empty());
                    !fetch_failed
                };
                for k in [2usize, 3] {
                    if ran == obs[k].text.is_empty() && !(obs[0].vector == Some(2)) { bad.push(("text", format!("{:?} text {:?} although an instruction was {}executed", VIAS[k], obs[k].text, if ran { "" } else { "not " }))); }
                    if obs[k].text != obs[2].text || obs[k].addr != obs[2].addr { bad.push(("text", format!("{:?} reports {:08X} {:?}, {:?} {:08X} {:?}", VIAS[k], obs[k].addr, obs[k].text, VIAS[2], obs[2].addr, obs[2].text))); }
                    if !obs[k].text.is_empty() && !d[k].bus.log.iter().any(|e| !e.write && e.size == 2 && e.addr == obs[k].addr) { bad.push(("address", format!("{:?} reports the address {:08X}, from which nothing was read", VIAS[k], obs[k].addr))); }
                    if !obs[k].text.is_empty() && !pre.stop && pre.pc >= 0x400 && d[k].bus.log.first().map_or(false, |e| e.addr == pre.pc && !e.write && e.size == 2) && obs[k].addr != pre.pc { bad.push(("address", format!("{:?} reports the address {:08X} of the instruction at {:08X}", VIAS[k], obs[k].addr, pre.pc))); }
                }
            }
            if !obs[2].text.is_empty() { texts += 1 } else { empty += 1 }
            if obs[0].vector.is_some() { vectors += 1; }
            ctx.eval(mix(op as u64 | (obs[0].vector.map_or(0x1FF, |v| v as u64)) << 16 | (pre.sr as u64) << 25 | (d[0].bus.log.len().min(63) as u64) << 41 | K::ID << 47));
            if !bad.is_empty() {
                for (w, m) in bad { ctx.violation(it, &format!("{name}:{w}"), format!("{} step {s}, {name} (opcode {op:04X}) at {:08X}, SR {:04X}: {m}", K::NAME, pre.pc, pre.sr)); }
                break 'run;
            }
            // The returned vector is submitted by hand, in the variants that return it.
            if let Some(v) = obs[0].vector { d[0].request(v); d[2].request(v); }
            for k in 0..4 { let mut a = astray[k]; keep_alive(&mut d[k], &sc.lay, s, &mut a); astray[k] = a; }
        }
        if it % 61 == 5 { ctx.sample(|| format!("{} run {it}: final {:?}", K::NAME, d[0].core())); }
    }
    for (k, v) in [("steps of four machines", steps), ("steps with an instruction", texts), ("steps without one", empty), ("vectors reported", vectors), ("runs ended by a panic of all four", halts)] { ctx.count(k, v); }
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Drive { Cycle(usize), UntilExc(usize), Loop }

/// What the documentation says the driver does, in single steps. None when it would not end soon, or something panics.
pub fn by_steps<K: Kind>(d: &mut Dut<K>, how: Drive, max: u64) -> Option<(usize, Option<u8>, u64)> {
    let mut total = 0usize;
    let mut n = 0u64;
    loop {
        match how { Drive::Cycle(c) | Drive::UntilExc(c) => if total >= c { return Some((total, None, n)); }, Drive::Loop => {} }
        n += 1;
        if n > max { return None; }
        let o = d.step(if matches!(how, Drive::Cycle(_)) { Via::Own } else { Via::Exc });
        if o.panicked.is_some() { return None; }
        total += o.cycles;
        match how {
            Drive::Cycle(c) => if d.cpu.stop { return Some((total.max(c), None, n)); },
            _ => if o.vector.is_some() || d.cpu.stop { return Some((total, o.vector, n)); },
        }
    }
}

pub fn drive<K: Kind>(d: &mut Dut<K>, how: Drive) -> Result<(usize, Option<u8>), String> {
    fn go<K: Kind, B: m68000::MemoryAccess>(cpu: &mut M68000<K>, bus: &mut B, how: Drive) -> (usize, Option<u8>) {
        match how { Drive::Cycle(c) => (cpu.cycle(bus, c), None), Drive::UntilExc(c) => cpu.cycle_until_exception(bus, c), Drive::Loop => cpu.loop_until_exception_stop(bus) }
    }
    let cpu = &mut d.cpu;
    let split = d.bus.split;
    let bus = &mut d.bus;
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if split { go(cpu, &mut Split(bus), how) } else { go(cpu, bus, how) })).map_err(|e| panic_text(&e))
}

fn driver_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: true, steps: 400, req: 60, wild: 15, stops: 40, ints: true, ..CFG };
    let (mut calls, mut stops, mut excs, mut budget, mut skipped, mut insns, mut zero) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let sc = scene::<K>(&mut rng, &cfg);
        let mut a = fork(&sc.dut);
        let mut b = fork(&sc.dut);
        let mut vs = sc.schedule.iter().map(|x| x.1);
        let mut astray = [0u32; 2];
        for call in 0..rng.range(4, 40) {
            if rng.chance(1, 2) { if let Some(v) = vs.next() { a.request(v); b.request(v); } }
            let n = match rng.below(8) { 0 => 0, 1 => 1, 2 => rng.range(2, 12), 3..=5 => rng.range(4, 200), 6 => rng.range(100, 1500), _ => rng.range(1, 60) } as usize;
            // Once in a while a long slice.
            let n = if rng.chance(1, 400) { rng.range(60_000, 200_000) as usize } else { n };
            let how = match rng.below(8) { 0..=3 => Drive::Cycle(n), 4..=6 => Drive::UntilExc(n), _ => Drive::Loop };
            a.bus.log.clear();
            b.bus.log.clear();
            let was_stop = b.cpu.stop;
            let Some((cyc, vec, steps)) = by_steps(&mut b, how, if n > 2000 { 60_000 } else { 3000 }) else { skipped += 1; break };
            a.bus.fuel = a.bus.accesses + b.bus.log.len() as u64 + 5_000;
            let r = drive(&mut a, how);
            a.bus.fuel = u64::MAX;
            calls += 1;
            insns += steps;
            if b.cpu.stop { stops += 1 } else if vec.is_some() { excs += 1 } else { budget += 1 }
            if steps == 0 { zero += 1; }
            ctx.eval(mix(cyc as u64 ^ (vec.map_or(0x1FF, |v| v as u64)) << 24 ^ (steps.min(255)) << 33 ^ (b.cpu.stop as u64) << 41 ^ (was_stop as u64) << 42 ^ (matches!(how, Drive::Loop) as u64) << 43 ^ (matches!(how, Drive::Cycle(_)) as u64) << 44 ^ (n as u64) << 45 ^ K::ID << 60));
            let kind = match how { Drive::Cycle(_) => "cycle", Drive::UntilExc(_) => "cycle-until-exception", Drive::Loop => "loop-until-exception-stop" };
            let mut bad: Vec<(&str, String)> = Vec::new();
            match r {
                Err(p) => bad.push(("panic", format!("panicked: {p}"))),
                Ok((c, v)) => {
                    if c != cyc { bad.push(("cycles", format!("returned {c} cycles, single steps took {cyc}{}", if b.cpu.stop { " (the processor is stopped, idle time counts in cycle)" } else { "" }))); }
                    if v != vec { bad.push(("vector", format!("returned {v:?}, single steps {vec:?}"))); }
                    if a.core() != b.core() { bad.push(("state", format!("registers{} (single steps right)", a.core().diff(&b.core())))); }
                    if a.bus.log != b.bus.log { bad.push(("accesses", format!("{} accesses, single steps made {}", a.bus.log.len(), b.bus.log.len()))); }
                    if a.bus.resets != b.bus.resets { bad.push(("reset-line", "different number of resets".into())); }
                },
            }
            let fail = !bad.is_empty();
            for (w, m) in bad { ctx.violation(it, &format!("{kind}:{w}"), format!("{} call {call} {how:?}, {}stopped before, {steps} steps: {m}", K::NAME, if was_stop { "" } else { "not " })); }
            if fail { break; }
            // The run-until functions leave the vector to the caller.
            if let Some(v) = vec { a.request(v); b.request(v); }
            keep_alive(&mut a, &sc.lay, call * 3, &mut astray[0]);
            keep_alive(&mut b, &sc.lay, call * 3, &mut astray[1]);
            if a.cpu.stop && rng.chance(1, 3) { let v = rng.pick(&[31u8, 63, 27, 0, 9]); a.request(v); b.request(v); }
            // Everything pending shows up in later steps.
        }
        if it % 101 == 5 { ctx.sample(|| format!("{} run {it}: {:?}", K::NAME, a.core())); }
    }
    for (k, v) in [("driver calls", calls), ("ended stopped", stops), ("ended by an exception", excs), ("ended by the budget", budget), ("runs skipped because single stepping does not end", skipped), ("single steps", insns), ("calls with nothing to do", zero)] { ctx.count(k, v); }
}

/// A run split in consecutive shorter runs, and idle time of a stopped processor.
fn split_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: false, steps: 100, req: 0, wild: 10, stops: 20, ..CFG };
    let (mut pieces, mut runs, mut idle) = (0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let sc = scene::<K>(&mut rng, &cfg);
        let n = rng.range(50, 3000) as usize;
        let mut probe = fork(&sc.dut);
        if by_steps(&mut probe, Drive::Cycle(n), 4000).is_none() { continue; }
        let mut whole = fork(&sc.dut);
        let mut parts = fork(&sc.dut);
        let Ok((tot, _)) = drive(&mut whole, Drive::Cycle(n)) else { continue };
        let mut done = 0usize;
        let mut fail = None;
        while done < n {
            let k = (rng.range(1, 200) as usize).min(n - done);
            match drive(&mut parts, Drive::Cycle(k)) {
                Ok((c, _)) => { if c < k { fail = Some(format!("asked for {k} cycles, {c} returned")); break; } done += c; pieces += 1; },
                Err(p) => { fail = Some(format!("panicked: {p}")); break; },
            }
        }
        runs += 1;
        if fail.is_none() && whole.core() != parts.core() { fail = Some(format!("pieces leave{} (whole right)", parts.core().diff(&whole.core()))); }
        if fail.is_none() && done != tot && !whole.cpu.stop { fail = Some(format!("pieces add up to {done} cycles, the whole to {tot}")); }
        if fail.is_none() && parts.bus.log != whole.bus.log { fail = Some("different accesses".into()); }
        if fail.is_none() && parts.bus.same_content(&whole.bus).is_some() { fail = Some("different memory".into()); }
        if let Some(f) = fail { ctx.violation(it, "split", format!("{} run of {n} cycles: {f}", K::NAME)); }
        if whole.cpu.stop {
            // Idle time: nothing happens and the whole budget is consumed.
            let c0 = whole.core();
            let k = rng.range(1, 100_000) as usize;
            whole.bus.log.clear();
            idle += 1;
            let mut probe = fork(&whole);
            let o = probe.step(Via::Exc);
            if o.cycles == 0 && probe.cpu.stop {
                match drive(&mut whole, Drive::Cycle(k)) {
                    Ok((c, _)) if c == k && whole.core() == c0 && whole.bus.log.is_empty() => {},
                    r => ctx.violation(it, "idle", format!("{} stopped, asked for {k} cycles: {r:?}, {} accesses", K::NAME, whole.bus.log.len())),
                }
            }
        }
        ctx.eval(mix(tot as u64 ^ (n as u64) << 20 ^ (whole.cpu.stop as u64) << 40 ^ (whole.core().pc as u64) << 41));
    }
    ctx.count("runs split", runs);
    ctx.count("pieces", pieces);
    ctx.count("idle periods", idle);
}

// ---------------------------------------------------------------- C22

/// Memory of a real buffer, with an access budget so that an endless loop becomes a verdict.
struct Buf<'a, S: m68000::MemoryAccess + ?Sized> { s: &'a mut S, fuel: u32, wrote: &'a mut Vec<u32> }
impl<S: m68000::MemoryAccess + ?Sized> Buf<'_, S> { fn burn(&mut self) { if self.fuel == 0 { panic!("{FUEL}"); } self.fuel -= 1; } }
impl<S: m68000::MemoryAccess + ?Sized> m68000::MemoryAccess for Buf<'_, S> {
    fn get_byte(&mut self, a: u32) -> Option<u8> { self.burn(); self.s.get_byte(a) }
    fn get_word(&mut self, a: u32) -> Option<u16> { self.burn(); self.s.get_word(a) }
    fn set_byte(&mut self, a: u32, v: u8) -> Option<()> { self.burn(); self.wrote.push(a); self.s.set_byte(a, v) }
    fn set_word(&mut self, a: u32, v: u16) -> Option<()> { self.burn(); self.wrote.extend([a, a.wrapping_add(1)]); self.s.set_word(a, v) }
    fn get_long(&mut self, a: u32) -> Option<u32> { self.burn(); self.s.get_long(a) }
    fn set_long(&mut self, a: u32, v: u32) -> Option<()> { self.burn(); for i in 0..4 { self.wrote.push(a.wrapping_add(i)); } self.s.set_long(a, v) }
    fn reset_instruction(&mut self) { self.s.reset_instruction() }
}

/// Hostile guests in the library's own memory buffers: what is outside the buffer does not exist.
fn buffers_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let (mut steps, mut halts, mut faults, mut lost, mut odd_len) = (0u64, 0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let words = rng.bool();
        let mut len = match rng.below(8) { 0 => rng.range(0, 16), 1 => rng.range(0x3F0, 0x420), 2 => if rng.chance(1, 16) { 0x1_0000 } else { 0x1000 }, _ => rng.range(0x400, 0x1000) } as usize;
        if words { len &= !1; }
        if len & 1 != 0 { odd_len += 1; }
        let mut data = vec![0u8; len];
        let style = rng.below(4);
        for (i, x) in data.iter_mut().enumerate() {
            *x = match style { 0 => rng.u16() as u8, 1 => if rng.chance(1, 3) { rng.u16() as u8 } else { 0 }, _ => rng.u16() as u8 };
            // Vectors that point into the buffer, mostly.
            if style >= 1 && i < 0x400 { *x = match i & 3 { 0 | 1 => 0, 2 => (rng.below(1 + (len as u64 >> 8))) as u8, _ => rng.u16() as u8 & 0xFE }; }
        }
        if style == 3 {
            let code = gen_program(&mut rng, len / 2);
            for (i, w) in code.iter().enumerate() { if 0x400 + 2 * i + 1 < len { data[0x400 + 2 * i] = (*w >> 8) as u8; data[0x400 + 2 * i + 1] = *w as u8; } }
        }
        let mut w16: Vec<u16> = data.chunks_exact(2).map(|c| (c[0] as u16) << 8 | c[1] as u16).collect();
        let mut bus = Bus::new(1);
        bus.fill = Fill::Zero;
        for (i, x) in data.iter().enumerate() { bus.poke8(i as u32, *x); }
        bus.holes.push((len as u32, u32::MAX, true, true));
        bus.split = true;
        bus.logging = true;
        let mut m = Model::new(K::FMT, K::timing(), bus);
        let mut cpu = if rng.bool() { m.request(0); M68000::<K>::new() } else { M68000::<K>::new_no_reset() };
        let mut c = Core::zero();
        c.sr = 0x2700;
        if m.pend == [0; 4] {
            c = gen_core(&mut rng, None, 10);
            if rng.chance(3, 4) && len > 2 { c.pc = rng.below(len as u64) as u32 & !1; }
            if rng.chance(3, 4) && len > 2 { c.ssp = rng.below(len as u64) as u32 & !1; c.usp = rng.below(len as u64) as u32 & !1; }
            for i in 0..7 { if rng.chance(2, 3) { c.a[i] = (rng.below(len as u64 + 8) as u32).wrapping_sub(4); } }
            core_to_regs(&c, &mut cpu.regs);
        }
        m.c = c;
        let mut wrote: Vec<u32> = Vec::new();
        for s in 0..rng.range(20, 300) {
            if rng.chance(1, 30) { let v = rng.u16() as u8; if v != 1 && !m.pending_list().iter().any(|x| ambiguous(*x, v)) { m.request(v); cpu.exception(Exception::from(v)); } }
            let pre = m.c;
            m.bus.log.clear();
            m.step();
            wrote.clear();
            let o = {
                let wrote = &mut wrote;
                let cpu = &mut cpu;
                let (d8, d16) = (&mut data, &mut w16);
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if words { cpu.interpreter_exception(&mut Buf { s: d16.as_mut_slice(), fuel: 20_000, wrote }) } else { cpu.interpreter_exception(&mut Buf { s: d8.as_mut_slice(), fuel: 20_000, wrote }) }))
            };
            steps += 1;
            let (cyc, vec) = match o {
                Ok(x) => x,
                Err(e) => {
                    let p = panic_text(&e);
                    if m.r.halt { halts += 1; break; }
                    // The words of a fault frame nothing is specified about were executed, or the frame is incomplete.
                    let inside = |a: u32| m.r.loose.contains(&a) || m.r.partial.iter().any(|p| a.wrapping_sub(p.0) < p.1);
                    if p != FUEL && m.bus.log.iter().any(|e| !e.write && (0..e.size as u32).any(|i| inside(e.addr.wrapping_add(i)))) { lost += 1; break; }
                    let op = m.r.op;
                    let msg = format!("{} {} of {len} bytes, step {s}, opcode {op:04X} ({}) at {:08X}, SR {:04X}: panicked: {p}", K::NAME, if words { "[u16]" } else { "[u8]" }, op_name(op), m.r.at, pre.sr);
                    if m.r.ext_fault && m.r.fetched && p != FUEL { ctx.finding(it, EXT_FAULT, "panic", msg); } else { ctx.violation(it, &format!("buffer-panic:{}", p.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(40).collect::<String>()), msg); }
                    break;
                },
            };
            let _ = cyc;
            if m.r.halt { ctx.violation(it, "buffer-nohalt", format!("{} double fault did not halt, step {s}", K::NAME)); break; }
            ctx.eval(mix(m.r.op as u64 | (vec.map_or(0x1FF, |v| v as u64)) << 16 | (words as u64) << 25 | K::ID << 26 | (pre.sr as u64) << 30));
            let fault = matches!(m.r.vector, Some(2 | 3));
            let framed = m.r.taken.iter().any(|v| *v == 2 || *v == 3) || !m.r.failed.is_empty();
            let got = regs_to_core(&cpu.regs, cpu.stop);
            if fault || m.r.unspec || framed {
                // What the registers hold after a fault is judged by C18; only the class of the event is compared here.
                if fault && !framed && !m.r.unspec { faults += 1; if !matches!(vec, Some(2 | 3)) { ctx.violation(it, "buffer-fault", format!("{} of {len} bytes, step {s}, opcode {:04X}: fault {:?} expected, {vec:?} reported", if words { "[u16]" } else { "[u8]" }, m.r.op, m.r.vector)); break; } }
                lost += m.r.unspec as u64;
                m.c = got;
                wrote.extend(m.bus.log.iter().filter(|e| e.write && e.ok).flat_map(|e| (0..e.size as u32).map(move |i| e.addr.wrapping_add(i))));
                for a in &wrote { let i = *a as usize; if i >= len { continue; } let v = if words { let w = w16[i >> 1]; if i & 1 == 0 { (w >> 8) as u8 } else { w as u8 } } else { data[i] }; m.bus.poke8(i as u32, v); }
                if let Some(v) = vec { if !m.pending_list().iter().any(|x| ambiguous(*x, v)) { m.request(v); cpu.exception(Exception::from(v)); } }
                continue;
            }
            let mut want = m.c;
            let mut g = got;
            g.sr = g.sr & !m.r.undef_ccr | want.sr & m.r.undef_ccr;
            if let Some((n, mask)) = m.r.undef_d { want.d[n as usize] = want.d[n as usize] & !mask | g.d[n as usize] & mask; }
            if m.r.loose_pc { want.pc = g.pc; }
            if m.r.loose_ssp { want.ssp = g.ssp; }
            if g != want || vec != m.r.vector { ctx.violation(it, "buffer-state", format!("{} {} of {len} bytes, step {s}, opcode {:04X} ({}): vector {vec:?}/{:?},{}", K::NAME, if words { "[u16]" } else { "[u8]" }, m.r.op, op_name(m.r.op), m.r.vector, g.diff(&want))); break; }
            let evs = std::mem::take(&mut m.bus.log);
            for e in &evs {
                if !e.write || !e.ok { continue; }
                for i in 0..e.size as u32 {
                    let a = e.addr.wrapping_add(i);
                    let v = if words { let w = w16[a as usize >> 1]; if a & 1 == 0 { (w >> 8) as u8 } else { w as u8 } } else { data[a as usize] };
                    if v != m.bus.peek8(a) && !m.r.loose.contains(&a) { ctx.violation(it, "buffer-memory", format!("{} byte {a:X} holds {v:02X}, expected {:02X} after opcode {:04X}", K::NAME, m.bus.peek8(a), m.r.op)); }
                    m.bus.poke8(a, v);
                }
            }
            m.c = got;
            if let Some(v) = vec { if m.pending_list().iter().any(|x| ambiguous(*x, v)) { break; } m.request(v); cpu.exception(Exception::from(v)); }
        }
    }
    for (k, v) in [("buffer steps", steps), ("permitted halts", halts), ("buffer faults", faults), ("buffers of odd length", odd_len), ("steps nothing is specified about", lost)] { ctx.count(k, v); }
}

/// The driver that runs for a number of cycles must come back even when the guest has ruined both PC and SSP.
fn wedge_unit(ctx: &mut Ctx, _unit: u64, its: Range<u64>) {
    use m68000::cpu_details::Mc68000;
    for it in its {
        ctx.beat(it);
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut mem = vec![0u16; 0x1000];
            let mut cpu = M68000::<Mc68000>::new_no_reset();
            cpu.regs.pc.0 = 0x401;
            cpu.regs.ssp.0 = 0x801;
            let n = cpu.cycle(mem.as_mut_slice(), 1000);
            let _ = tx.send(n);
        });
        ctx.eval(mix(it));
        if rx.recv_timeout(std::time::Duration::from_secs(3)).is_err() { ctx.finding(it, "cycle-without-progress", "wedge", "cycle(1000) with PC and SSP both odd does not return: every step takes 0 cycles".into()); }
        ctx.count("driver calls with odd PC and SSP", 1);
    }
}

// ---------------------------------------------------------------- C31

#[derive(Clone)]
pub struct Run { pub hash: u64, pub steps: u64, pub fin: Core, pub mem: u64 }

/// One machine of any processor type, stepped through a common interface.
pub struct Machine<K: Kind> { d: Dut<K>, lay: Layout, sched: Vec<(u64, u8)>, next: usize, s: u64, astray: u32, h: u64, dead: bool, via: Via }
pub trait Steps: Send { fn advance(&mut self, max: u64) -> bool { self.advance_with(max, None) } fn advance_with(&mut self, max: u64, guest: Option<&mut Guest>) -> bool; fn result(&self) -> Run; fn dup(&self) -> Box<dyn Steps>; }
/// Another machine that is stepped while the first one is waiting for its memory.
pub struct Guest<'a> { pub m: &'a mut dyn Steps, pub rng: &'a mut Rng, pub max: u64, pub done: u64 }
impl Guest<'_> { fn turn(&mut self) { if self.rng.chance(1, 4) && self.m.advance(self.max) { self.done += 1; } } }
struct Nest<'a, 'b> { bus: &'a mut Bus, g: &'a mut Guest<'b> }
impl Nest<'_, '_> { fn at<T>(&mut self, f: impl FnOnce(&mut Bus) -> T) -> T { self.g.turn(); let r = f(self.bus); self.g.turn(); r } }
impl m68000::MemoryAccess for Nest<'_, '_> {
    fn get_byte(&mut self, addr: u32) -> Option<u8> { self.at(|b| b.r8(addr)) }
    fn get_word(&mut self, addr: u32) -> Option<u16> { self.at(|b| b.r16(addr)) }
    fn get_long(&mut self, addr: u32) -> Option<u32> { self.at(|b| b.r32(addr)) }
    fn set_byte(&mut self, addr: u32, v: u8) -> Option<()> { self.at(|b| b.w8(addr, v)) }
    fn set_word(&mut self, addr: u32, v: u16) -> Option<()> { self.at(|b| b.w16(addr, v)) }
    fn set_long(&mut self, addr: u32, v: u32) -> Option<()> { self.at(|b| b.w32(addr, v)) }
    fn reset_instruction(&mut self) { self.at(|b| b.resets += 1) }
}
impl<K: Kind> Steps for Machine<K> {
    fn advance_with(&mut self, max: u64, guest: Option<&mut Guest>) -> bool {
        if self.dead || self.s >= max { return false; }
        while self.next < self.sched.len() && self.sched[self.next].0 <= self.s { self.d.request(self.sched[self.next].1); self.next += 1; }
        self.d.bus.log.clear();
        self.d.bus.fuel = self.d.bus.accesses + 20_000;
        let o = match guest {
            None => self.d.step(self.via),
            Some(g) => { let Dut { cpu, bus } = &mut self.d; Dut::step_on(cpu, &mut Nest { bus, g }, self.via) },
        };
        if o.panicked.is_some() { self.dead = true; }
        let c = self.d.core();
        let mut h = self.h ^ o.cycles as u64 ^ (o.vector.map_or(0x1FF, |v| v as u64)) << 32 ^ (o.addr as u64) << 8;
        for x in c.d.iter().chain(c.a.iter()).chain([c.usp, c.ssp, c.pc, c.sr as u32, c.stop as u32].iter()) { h = mix(h ^ *x as u64); }
        for e in &self.d.bus.log { h = mix(h ^ e.addr as u64 ^ (e.val as u64) << 32 ^ (e.write as u64) << 3 ^ (e.size as u64) << 5); }
        for b in o.text.bytes() { h = h.rotate_left(7) ^ b as u64; }
        self.h = mix(h);
        if let Some(v) = o.vector { self.d.request(v); }
        keep_alive(&mut self.d, &self.lay, self.s, &mut self.astray);
        self.s += 1;
        true
    }
    fn result(&self) -> Run {
        let mut m = 0u64;
        for (k, v) in self.d.bus.overlay() { m = m.wrapping_add(mix((*k as u64) << 16 | *v as u64)); }
        Run { hash: self.h, steps: self.s, fin: self.d.core(), mem: m }
    }
    fn dup(&self) -> Box<dyn Steps> {
        Box::new(Machine { d: fork(&self.d), lay: Layout { ..self.lay }, sched: self.sched.clone(), next: self.next, s: self.s, astray: self.astray, h: self.h, dead: self.dead, via: self.via })
    }
}
pub fn machine(rng: &mut Rng, c: &Cfg) -> Box<dyn Steps> {
    fn mk<K: Kind>(rng: &mut Rng, c: &Cfg) -> Box<dyn Steps> {
        let sc = scene::<K>(rng, c);
        let via = rng.pick(&VIAS);
        Box::new(Machine { d: sc.dut, lay: sc.lay, sched: sc.schedule, next: 0, s: 0, astray: 0, h: 0, dead: false, via })
    }
    let k = rng.below(4);
    kinds!(k, mk(rng, c))
}
pub fn same(a: &Run, b: &Run) -> bool { a.hash == b.hash && a.steps == b.steps && a.fin == b.fin && a.mem == b.mem }

fn isolation_unit(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: true, steps: 200, req: 40, wild: 20, ..CFG };
    let (mut switches, mut clones, mut total) = (0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let n = rng.range(2, 5) as usize;
        let start: Vec<Box<dyn Steps>> = (0..n).map(|_| machine(&mut rng, &cfg)).collect();
        // Alone, one after the other.
        let alone: Vec<Run> = start.iter().map(|m| { let mut m = m.dup(); while m.advance(cfg.steps) {} m.result() }).collect();
        // Interleaved step by step; sometimes a machine is replaced by its clone, and the original runs on.
        let mut inter: Vec<Box<dyn Steps>> = start.iter().map(|m| m.dup()).collect();
        let mut extra: Vec<(usize, Box<dyn Steps>)> = Vec::new();
        let mut live: Vec<usize> = (0..n).collect();
        while !live.is_empty() {
            let j = rng.below(live.len() as u64) as usize;
            let k = live[j];
            let burst = if rng.chance(1, 4) { rng.range(1, 20) } else { 1 };
            let mut on = true;
            for _ in 0..burst { on = inter[k].advance(cfg.steps); if !on { break; } total += 1; }
            switches += 1;
            if !on { live.swap_remove(j); continue; }
            if extra.len() < 4 && rng.chance(1, 100) { let c = inter[k].dup(); let old = std::mem::replace(&mut inter[k], c); extra.push((k, old)); clones += 1; }
            if let Some((_, e)) = extra.last_mut() { if rng.chance(1, 3) { e.advance(cfg.steps); } }
        }
        for k in 0..n {
            let r = inter[k].result();
            if !same(&r, &alone[k]) { ctx.violation(it, "interleaved", format!("machine {k} of {n} interleaved ends with trace {:016x} after {} steps, alone {:016x} after {}:{}", r.hash, r.steps, alone[k].hash, alone[k].steps, r.fin.diff(&alone[k].fin))); }
            ctx.eval(mix(r.hash));
        }
        for (k, mut e) in extra { while e.advance(cfg.steps) {} let r = e.result(); if !same(&r, &alone[k]) { ctx.violation(it, "clone", format!("the original of a cloned machine diverges from its run alone:{}", r.fin.diff(&alone[k].fin))); } }
        // Again from the start.
        let k = rng.below(n as u64) as usize;
        let mut m = start[k].dup();
        while m.advance(cfg.steps) {}
        if !same(&m.result(), &alone[k]) { ctx.violation(it, "determinism", "the same run gives two traces".into()); }
        if it % 31 == 3 { ctx.sample(|| format!("{n} machines interleaved, traces {:?}", alone.iter().map(|r| format!("{:016x}", r.hash)).collect::<Vec<_>>())); }
    }
    ctx.count("interleaved steps", total);
    ctx.count("switches between machines", switches);
    ctx.count("clones taken mid-run", clones);
}

/// A machine whose memory steps another machine in the middle of its instructions.
fn nested_unit(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: true, steps: 150, req: 40, wild: 20, ..CFG };
    let (mut inner, mut outer) = (0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let start: Vec<Box<dyn Steps>> = (0..2).map(|_| machine(&mut rng, &cfg)).collect();
        let alone: Vec<Run> = start.iter().map(|m| { let mut m = m.dup(); while m.advance(cfg.steps) {} m.result() }).collect();
        let (mut a, mut b) = (start[0].dup(), start[1].dup());
        // Sometimes the guest is a clone of its host.
        let twin = rng.chance(1, 4);
        if twin { b = a.dup(); }
        let mut g = Guest { m: &mut *b, rng: &mut rng, max: cfg.steps, done: 0 };
        while a.advance_with(cfg.steps, Some(&mut g)) { outer += 1; }
        inner += g.done;
        while b.advance(cfg.steps) {}
        for (who, r, want) in [("host", a.result(), &alone[0]), ("guest", b.result(), &alone[if twin { 0 } else { 1 }])] {
            ctx.eval(mix(r.hash ^ 5));
            if !same(&r, want) { ctx.violation(it, "nested", format!("the {who} of two machines, one stepped by the other's memory, ends with trace {:016x} after {} steps, alone {:016x} after {}:{}", r.hash, r.steps, want.hash, want.steps, r.fin.diff(&want.fin))); }
        }
    }
    ctx.count("steps made inside another machine's access", inner);
    ctx.count("steps during whose accesses another machine may run", outer);
}

fn threads_unit(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: true, steps: 300, req: 40, wild: 20, ..CFG };
    let mut runs = 0u64;
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let n = rng.range(2, 6) as usize;
        let start: Vec<Box<dyn Steps>> = (0..n).map(|_| machine(&mut rng, &cfg)).collect();
        let alone: Vec<Run> = start.iter().map(|m| { let mut m = m.dup(); while m.advance(cfg.steps) {} m.result() }).collect();
        let go = std::sync::Barrier::new(n);
        let res: Vec<Run> = std::thread::scope(|s| {
            let go = &go;
            let hs: Vec<_> = start.iter().map(|m| { let mut m = m.dup(); s.spawn(move || { go.wait(); while m.advance(cfg.steps) {} m.result() }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for k in 0..n {
            runs += 1;
            if !same(&res[k], &alone[k]) { ctx.violation(it, "threads", format!("machine {k} of {n} on its own thread ends with trace {:016x}, alone {:016x}:{}", res[k].hash, alone[k].hash, res[k].fin.diff(&alone[k].fin))); }
            ctx.eval(mix(res[k].hash));
        }
        // A machine moved between threads in the middle of its run.
        let mut m = start[0].dup();
        for _ in 0..rng.below(cfg.steps) { m.advance(cfg.steps); }
        let r = std::thread::spawn(move || { while m.advance(cfg.steps) {} m.result() }).join().unwrap();
        if !same(&r, &alone[0]) { ctx.violation(it, "moved", "a machine moved to another thread diverges".into()); }
    }
    ctx.count("runs on concurrent threads", runs);
}

/// A fresh core given the same registers, pending exceptions, stop state and memory continues exactly alike.
fn transplant_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let cfg = Cfg { holes: false, steps: 300, req: 0, wild: 15, ..CFG };
    let (mut moves, mut steps, mut with_pending) = (0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let sc = scene::<K>(&mut rng, &cfg);
        let mut a = sc.dut;
        let mut astray = 0;
        let mut pend: Vec<u8> = Vec::new();
        let mut clean = false;
        for s in 0..cfg.steps {
            if s > 0 && clean && rng.chance(1, 25) && pend.is_empty() && a.core().pc & 1 == 0 {
                // Nothing is pending here: the whole state is visible, except what was just requested.
                let mut b = Dut::<K>::new(a.bus.clone());
                b.set_core(&a.core());
                let mut x = fork(&a);
                for _ in 0..rng.below(3) { let v = pick_vector(&mut rng, true); if v != 2 && v != 3 && v != 0 { x.request(v); b.request(v); with_pending += 1; } }
                moves += 1;
                let mut asx = 0; let mut asb = 0;
                for t in 0..rng.range(5, 60) {
                    x.bus.log.clear(); b.bus.log.clear();
                    let (ox, ob) = (x.step(Via::Exc), b.step(Via::Exc));
                    steps += 1;
                    if ox.panicked.is_some() && ob.panicked.is_some() { break; }
                    // Before anything was fetched the instruction register of a fault frame is not comparable.
                    if t == 0 && matches!(ox.vector, Some(2 | 3)) { break; }
                    let bad = if ox.vector != ob.vector { Some(format!("vector {:?} / {:?}", ox.vector, ob.vector)) } else if ox.cycles != ob.cycles { Some(format!("{} / {} cycles", ox.cycles, ob.cycles)) } else if x.core() != b.core() { Some(format!("registers{}", b.core().diff(&x.core()))) } else if x.bus.log != b.bus.log { Some("different accesses".into()) } else { None };
                    if let Some(m) = bad { ctx.violation(it, "transplant", format!("{} {t} steps after the transplant: {m} (fresh core / core with a history)", K::NAME)); break; }
                    if let Some(v) = ox.vector { x.request(v); b.request(v); }
                    keep_alive(&mut x, &sc.lay, t, &mut asx); keep_alive(&mut b, &sc.lay, t, &mut asb);
                    ctx.eval(mix(x.core().pc as u64 ^ (x.core().sr as u64) << 32 ^ t << 48));
                }
            }
            // With an even stack pointer and no holes every pending exception gets its frame: none is left afterwards.
            clean = a.core().ssp & 1 == 0 && !a.cpu.stop;
            let o = a.step(Via::Exc);
            if o.panicked.is_some() { break; }
            pend.clear();
            if let Some(v) = o.vector { a.request(v); pend.push(v); }
            if a.cpu.stop { a.request(31); pend.push(31); }
            keep_alive(&mut a, &sc.lay, s, &mut astray);
        }
    }
    ctx.count("transplants", moves);
    ctx.count("steps compared after a transplant", steps);
    ctx.count("exceptions requested of both", with_pending);
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let n = |q: u64| if thorough { q * 25 } else { q };
    const R: &str = "distinct (opcode, raised vector, status register, first exception taken, way of stepping, processor type) observed in the runs";
    Some(match p {
        "C19" => (opts("C19", "distinct (opcode, reported vector, status register before, number of accesses, processor type) at which the four stepping functions were compared", 100_000),
            vec![work("four-ways", 64, n(160), |c, u, i| kinds!(u, stepping_unit(c, u, i)))]),
        "C20" => (opts("C20", "distinct (driver, budget, returned cycles and vector, steps, stopped before and after, processor type)", 50_000), vec![
            work("drivers", 64, n(1_500), |c, u, i| kinds!(u, driver_unit(c, u, i))),
            work("split-runs", 64, n(500), |c, u, i| kinds!(u, split_unit(c, u, i))),
        ]),
        "C22" => {
            let o = opts("C22", "distinct (opcode, raised vector, status register, buffer kind or first exception taken, processor type) of hostile steps", 200_000);
            (o, vec![
                work("buffers", 64, n(1_500), |c, u, i| kinds!(u, buffers_unit(c, u, i))),
                histories("hostile-memory", 64, n(300), Cfg { aspects: A_PANIC | A_VEC | A_PC, wild: 100, holes: true, steps: 200, req: 40, ..CFG }),
                histories("hostile-programs", 64, n(200), Cfg { aspects: A_PANIC | A_VEC | A_PC, wild: 20, holes: true, req: 60, ..CFG }),
                sweep("hostile-operands", any, n(1_500_000), Spec { aspects: A_PANIC | A_VEC | A_PC, aligned: false, ..BASE }),
                sweep("hostile-arithmetic", |_, i| i.map_or(false, |i| class(&i) == 3 || class(&i) == 6), n(800_000), Spec { aspects: A_PANIC | A_VEC | A_PC, ..BASE }),
                work("driver-progress", 1, 1, wedge_unit),
            ])
        },
        "C31" => (opts("C31", "distinct traces (hash over every step's registers, cycles, vector, text and accesses)", 5_000), vec![
            work("interleaved", 64, n(60), isolation_unit),
            work("threads", 16, n(60), threads_unit),
            work("nested", 64, n(60), nested_unit),
            work("transplant", 64, n(120), |c, u, i| kinds!(u, transplant_unit(c, u, i))),
        ]),
        "C33" => (opts("C33", R, 500_000), vec![
            histories("programs", 64, n(600), CFG),
            histories("programs-with-faults", 64, n(200), Cfg { holes: true, ..CFG }),
            histories("long-programs", 32, n(12), Cfg { steps: 20_000, ..CFG }),
        ]),
        _ => return None,
    })
}
