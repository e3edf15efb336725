//! Exception processing, tracing, stopping and faults: direct monitors of the stated rules, next to lockstep histories.
use crate::bus::*;
use crate::hist::*;
use crate::isa68k::*;
use crate::lockstep::*;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::single::*;
use crate::timing::{TagA, TagB};
use m68000::cpu_details::{Mc68000, Scc68070};
use std::ops::Range;

const NOP: u16 = 0x4E71;

/// Dispatches a generic case function over the processor types.
#[macro_export]
macro_rules! kinds {
    ($unit:expr, $f:ident ( $($a:expr),* )) => {
        match $unit % 4 { 0 => $f::<m68000::cpu_details::Mc68000>($($a),*), 1 => $f::<m68000::cpu_details::Scc68070>($($a),*), 2 => $f::<$crate::timing::TagA>($($a),*), _ => $f::<$crate::timing::TagB>($($a),*) }
    };
}

/// Machine with stacks, a vector table and one handler per vector starting with NOP.
fn arena<K: Kind>(p: &mut Pair<K>, rng: &mut Rng) -> (Core, u32) {
    p.reset_to(rng.u64());
    let hbase = 0x0001_0000 + (rng.below(0x1000) as u32) * 2 + rng.pick(&[0u32, 0, 0x00F0_0000, 0x7FFF_0000, 0xFFE0_0000]);
    let mut c = gen_core(rng, None, 5);
    c.ssp = 0x0008_0000 + (rng.below(0x4000) as u32) * 2 + rng.pick(&[0u32, 0, 0x0100_0000, 0x8000_0000]);
    if rng.chance(1, 32) { c.ssp = rng.below(2) as u32 * 4 + 0x400 + 2 * rng.below(64) as u32; }
    c.usp = 0x000C_0000 + rng.below(0x8000) as u32;
    (c, hbase)
}
fn handler(p_: u32, v: u8) -> u32 { p_.wrapping_add(v as u32 * 0x20) }

/// Exceptions raised by instructions or requested from outside: frame, new state and handler, one at a time.
fn entry_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>, aspects: u32) {
    let mut p = Pair::<K>::new(0);
    let mut out = Vec::new();
    let mut log = Vec::new();
    let (mut raised, mut requested) = (0u64, 0u64);
    let priv_ops = priv_ops();
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let via = rng.pick(&VIAS);
        let first;
        if rng.bool() {
            // A vector raised by an instruction.
            let op = match rng.below(10) {
                0 => rng.u16(),
                1 => 0x4E40 | rng.below(16) as u16,
                2 => 0x4E76,
                3 => 0x4AFC,
                4 => 0xA000 | rng.u16() & 0xFFF,
                5 => 0xF000 | rng.u16() & 0xFFF,
                6 => 0x4180 | (rng.below(8) as u16) << 9 | rng.pick(&[0, 1, 2, 0x10, 0x28, 0x38, 0x3A, 0x3C]) | rng.below(2) as u16 * 0,
                7 => 0x80C0 | (rng.below(8) as u16) << 9 | (rng.below(2) as u16) << 8 | rng.pick(&[0, 1, 2, 3, 0x10, 0x18, 0x28, 0x38, 0x3C]),
                8 => rng.pick(&priv_ops),
                _ => unknown_op(&mut rng),
            };
            let g = Gen { aligned: rng.chance(3, 4), odd_pct: 5, ..Default::default() };
            setup(&mut p, &mut rng, op, &g, &mut log);
            let mut c = p.m.c;
            if rng.chance(7, 8) { c.ssp &= !1; c.ssp = c.ssp.wrapping_add(0x1000) | 0x1_0000; }
            if decode(op).map_or(false, |i| matches!(i, Ins::Div { .. })) && rng.bool() { if let Some(Ins::Div { ea: Ea::D(r), .. }) = decode(op) { c.d[r as usize] &= 0xFFFF_0000; } }
            p.set_core(&c);
            p.step(via, &mut out);
            let v = p.m.r.vector;
            if p.m.r.unspec || p.m.r.halt { continue; }
            report(ctx, it, &p, "raise", aspects, &out);
            if !out.is_empty() || p.obs.panicked.is_some() { continue; }
            let Some(v) = v else { continue };
            raised += 1;
            first = v;
            if matches!(via, Via::Exc | Via::DisExc) { p.request(v); }
        } else {
            let (c, _) = arena(&mut p, &mut rng);
            p.set_core(&c);
            p.poke16(c.pc, rng.u16());
            let v = if rng.chance(1, 3) { pick_vector(&mut rng, true) } else { rng.range(2, 255) as u8 };
            p.request(v);
            requested += 1;
            first = v;
        }
        // The handler starts with a harmless instruction, mostly.
        let h = p.m.bus.peek32(first as u32 * 4);
        if rng.chance(9, 10) {
            let h = if rng.chance(15, 16) { h & !1 } else { h };
            p.poke32(first as u32 * 4, h);
            p.poke16(h, rng.pick(&[NOP, NOP, 0x7001, 0x40C0]));
        }
        if p.m.masked(first) && rng.bool() { p.poke16(p.m.c.pc & !1, NOP); }
        p.step(via, &mut out);
        if p.known { continue; }
        if p.m.r.unspec { continue; }
        report(ctx, it, &p, "entry", aspects, &out);
        ctx.eval(mix(first as u64 | (p.pre.sr as u64) << 8 | (via as u64) << 24 | K::ID << 26 | (p.m.r.taken.len() as u64) << 30 | (p.m.r.failed.len() as u64) << 34));
        if it % 5003 == 1 { ctx.sample(|| format!("{} vector {first} from SR {:04X}: taken {:?} failed {:?}, SR {:04X}, PC {:08X}", K::NAME, p.pre.sr, p.m.r.taken, p.m.r.failed, p.d.core().sr, p.d.core().pc)); }
    }
    ctx.count("exceptions raised by instructions", raised);
    ctx.count("exceptions requested", requested);
}

fn priv_ops() -> Vec<u16> { (0..=0xFFFFu16).filter(|o| decode(*o).map_or(false, |i| i.privileged())).collect() }
fn unknown_op(rng: &mut Rng) -> u16 { loop { let o = rng.u16(); if decode(o).is_none() { return o; } } }

fn report<K: Kind>(ctx: &mut Ctx, it: u64, p: &Pair<K>, what: &str, aspects: u32, out: &[Diff]) {
    for d in out {
        if d.aspect & aspects == 0 { continue; }
        if p.known { continue; }
        let name = if p.m.r.fetched { op_name(p.m.r.op) } else { "no-instruction" };
        let v = p.m.r.taken.last().or(p.m.r.failed.last().map(|x| &x.0)).copied().or(p.m.r.vector).unwrap_or(255);
        let sig = format!("{what}:{}:{}:{v}", if what == "entry" { "" } else { name }, aspect_name(d.aspect & aspects));
        let ex = exts(p);
        let m = describe(K::NAME, &p.pre, p.m.r.op, &ex, p.via, d) + &format!("; taken {:?} failed {:?} raised {:?}", p.m.r.taken, p.m.r.failed, p.m.r.vector);
        ctx.violation(it, &sig, m);
    }
}

/// Documented order of simultaneous exceptions, as a class; a lower class is handled earlier.
fn order_class(v: u8) -> (u8, u8) {
    match v {
        3 => (0, 0), 2 => (1, 0), 9 => (2, 0),
        25..=31 | 57..=63 => (3, 7 - (v & 7)),
        24 | 64..=255 => (3, 255),
        4 => (4, 0), 8 => (5, 0),
        _ => (6, 0),
    }
}

/// Sets of pending exceptions, requested in any order: every one that the mask admits is taken exactly once, frames nest by
/// priority, the others stay pending until the mask admits them. Decided by walking the frames on the stack.
fn sets_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let mut taken_total = 0u64;
    let mut kept = 0u64;
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut bus = Bus::new(rng.u64());
        bus.fill = Fill::Zero;
        let hb = 0x0004_0000u32;
        let hi = if rng.bool() { 3 } else { 10 };
        let n = rng.range(1, hi);
        let mut set: Vec<u8> = Vec::new();
        for _ in 0..n {
            let v = match rng.below(8) { 0 => rng.pick(&[2, 3, 4, 8, 9]), 1 => rng.range(2, 255) as u8, 2 => rng.range(64, 255) as u8, 3 | 4 => rng.range(57, 63) as u8, 5 => rng.pick(&[24, 32, 33, 47, 5, 6, 7, 10, 11]), _ => rng.range(25, 31) as u8 };
            if !set.contains(&v) { set.push(v); }
        }
        // Now and then nearly everything is pending at once.
        if rng.chance(1, 32) { let keep = rng.range(1, 8); for v in 2..=255u8 { if rng.below(8) < keep && !set.contains(&v) { set.push(v); } } }
        for v in 2..=255u8 { bus.poke32(v as u32 * 4, hb + v as u32 * 0x10); }
        for v in 2..=255u8 { bus.poke16(hb + v as u32 * 0x10, NOP); }
        let pc0 = 0x2000u32 + 2 * rng.below(0x400) as u32;
        bus.poke16(pc0, NOP);
        let mask0 = rng.below(8) as u16;
        let sr0 = (mask0 << 8) | if rng.bool() { S } else { 0 } | rng.u16() & 0x1F;
        let ssp0 = 0x0009_0000u32 + 2 * rng.below(1024) as u32;
        let mut c = Core::zero();
        c.pc = pc0; c.sr = sr0; c.ssp = ssp0; c.usp = 0x000A_0000;
        let mut d = Dut::<K>::new(bus);
        d.set_core(&c);
        // Some requests are repeated: a pending exception is taken once.
        let mut order = set.clone();
        if rng.bool() { let x = rng.pick(&set); order.push(x); }
        for i in (1..order.len()).rev() { let j = rng.below(i as u64 + 1) as usize; order.swap(i, j); }
        for v in &order { d.request(*v); }
        let via = rng.pick(&[Via::Exc, Via::DisExc]);
        let mut waiting = set.clone();
        let mut cur = c;
        for round in 0..3 {
            let mask = cur.sr >> 8 & 7;
            let admit = |v: u8| !is_int(v) || v & 7 == 7 || (v & 7) as u16 > mask;
            let mut want: Vec<u8> = waiting.iter().copied().filter(|v| admit(*v)).collect();
            d.bus.log.clear();
            let (top0, ret0) = (cur.ssp, cur.pc);
            let o = d.step(via);
            if let Some(p) = o.panicked { ctx.violation(it, "set:panic", format!("{} pending {set:?}: panicked: {p}", K::NAME)); break; }
            let after = d.core();
            // Walk the frames from the newest.
            let mut got = Vec::new();
            let mut sp = after.ssp;
            let mut pc = if o.vector.is_none() { after.pc.wrapping_sub(2) } else { after.pc };
            let mut ok = true;
            let mut sr_chain = Vec::new();
            while sp != top0 {
                let off = pc.wrapping_sub(hb);
                if off & 15 != 0 || off >= 0x1000 || got.len() > 300 { ok = false; break; }
                let v = (off >> 4) as u8;
                got.push(v);
                let long = v == 2 || v == 3;
                if K::FMT == Fmt::M68k && long { sp = sp.wrapping_add(8); }
                let sr = d.bus.peek16(sp);
                let ret = d.bus.peek32(sp.wrapping_add(2));
                sp = sp.wrapping_add(6);
                if K::FMT == Fmt::Scc {
                    let f = d.bus.peek16(sp);
                    let want_f = if long { 0xF000 } else { 0 } | v as u16 * 4;
                    if f != want_f { ctx.violation(it, "set:format", format!("{} vector {v}: frame format word {f:04X}, expected {want_f:04X}", K::NAME)); }
                    sp = sp.wrapping_add(if long { 28 } else { 2 });
                }
                sr_chain.push((v, sr));
                pc = ret;
            }
            if pc != ret0 { ok = false; }
            got.reverse();
            let mut sorted = got.clone();
            sorted.sort();
            want.sort();
            if !ok || sorted != want {
                ctx.violation(it, "set:lost-or-duplicated", format!("{} pending {waiting:?} at mask {mask}: frames show {got:?} (complete chain: {ok}), expected exactly {want:?}", K::NAME));
                break;
            }
            for w in got.windows(2) {
                let (a, b) = (order_class(w[0]), order_class(w[1]));
                // Each later frame is handled earlier. User and spurious interrupts carry no level.
                let bad = a.0 < b.0 || a.0 == 3 && b.0 == 3 && a.1 != 255 && b.1 != 255 && a.1 < b.1;
                if bad { ctx.violation(it, "set:order", format!("{} pending {want:?}: processed {got:?}; {} must be handled before {}", K::NAME, w[0], w[1])); }
            }
            // The saved status words: the oldest frame saves the original one, the others the one set up before them.
            let mut m = cur.sr;
            for (i, v) in got.iter().enumerate() {
                let saved = sr_chain[got.len() - 1 - i].1;
                if saved != m { ctx.violation(it, "set:saved-sr", format!("{} {got:?}: frame of {v} saves {saved:04X}, expected {m:04X}", K::NAME)); break; }
                m = m & !T | S;
                if is_int(*v) { m = m & !0x700 | ((*v & 7) as u16) << 8; }
            }
            if after.sr != m { ctx.violation(it, "set:new-sr", format!("{} {got:?}: status {:04X}, expected {m:04X}", K::NAME, after.sr)); }
            taken_total += got.len() as u64;
            waiting.retain(|v| !want.contains(v));
            kept += waiting.len() as u64;
            let mut h = mix(K::ID ^ (via as u64) << 3 ^ round << 5);
            for v in &got { h = mix(h ^ *v as u64); }
            ctx.eval(h);
            if it % 7001 == 5 && round == 0 { ctx.sample(|| format!("{} requested {order:?} at mask {mask}: processed {got:?}, kept {waiting:?}", K::NAME)); }
            // Open the mask for what is left, then everything must be gone.
            cur = after;
            cur.ssp = ssp0; cur.pc = pc0;
            cur.sr = cur.sr & !0x700 | (match round { 0 => rng.below(8) as u16, _ => 0 }) << 8;
            d.set_core(&cur);
            d.bus.poke16(pc0, NOP);
        }
    }
    ctx.count("exceptions taken from sets", taken_total);
    ctx.count("requests kept pending behind the mask", kept);
}

/// Requests interleaved with execution against a counting monitor: every request is matched by exactly one entry.
fn ledger_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let (mut asked, mut seen) = (0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut bus = Bus::new(rng.u64());
        bus.fill = Fill::Zero;
        let hb = 0x0004_0000u32;
        for v in 2..=255u32 {
            bus.poke32(v * 4, hb + v * 0x20);
            // Each handler counts itself in its own memory cell, then returns.
            let h = hb + v * 0x20;
            let cell = 0x0003_0000 + v * 4;
            let mut code = vec![0x52B9, (cell >> 16) as u16, cell as u16];
            if (v == 2 || v == 3) && K::FMT == Fmt::M68k { code.push(0x508F); }
            if rng.chance(1, 4) { code.insert(0, NOP); }
            code.push(0x4E73);
            for (i, w) in code.iter().enumerate() { bus.poke16(h + 2 * i as u32, *w); }
        }
        // Main program: changes the interrupt mask now and then.
        let pc0 = 0x2000u32;
        let mut a = pc0;
        for _ in 0..rng.range(4, 20) {
            match rng.below(4) { 0 => { bus.poke16(a, 0x46FC); bus.poke16(a + 2, 0x2000 | (rng.below(8) as u16) << 8); a += 4; }, 1 => { bus.poke16(a, 0x5280); a += 2; }, _ => { bus.poke16(a, NOP); a += 2; } }
        }
        bus.poke16(a, 0x6000); bus.poke16(a + 2, (pc0.wrapping_sub(a + 2)) as u16);
        let mut d = Dut::<K>::new(bus);
        let mut c = Core::zero();
        c.pc = pc0; c.ssp = 0x0009_0000; c.usp = 0x000A_0000; c.sr = 0x2000 | (rng.below(8) as u16) << 8;
        d.set_core(&c);
        let via = rng.pick(&VIAS);
        // Monitor: the cells tell what was taken; a vector is pending from its request until its cell moves.
        let mut count = [0u32; 256];
        let mut expected = [0u32; 256];
        let mut pending = [false; 256];
        let steps = rng.range(20, 200);
        let mut bad = None;
        for step in 0..steps + 60 {
            if step < steps && rng.chance(1, 6) {
                let v = rng.pick(&[25u8, 26, 27, 28, 29, 30, 31, 57, 58, 59, 60, 61, 62, 63, 32, 40, 47, 64, 100, 255, 24, 5, 6, 7]);
                if !pending[v as usize] { pending[v as usize] = true; expected[v as usize] += 1; asked += 1; }
                d.request(v);
            }
            if step == steps { let mut k = d.core(); k.sr = k.sr & !0x700; d.set_core(&k); }
            let o = d.step(via);
            if let Some(p) = o.panicked { bad = Some(format!("panicked: {p}")); break; }
            if o.vector.is_some() { bad = Some(format!("unexpected exception {:?}", o.vector)); break; }
            // A pending vector counts as taken when its frame is pushed: seen through its vector being read.
            for e in &d.bus.log { if !e.write && e.addr & 3 == 0 && e.addr < 0x400 { let v = (e.addr / 4) as usize; if !pending[v] { bad = Some(format!("vector {v} was taken without a request (step {step})")); } pending[v] = false; count[v] += 1; seen += 1; } }
            d.bus.log.clear();
            if bad.is_some() { break; }
        }
        if bad.is_none() {
            for v in 0..256 { if count[v] != expected[v] { bad = Some(format!("vector {v} was requested {} times and taken {} times", expected[v], count[v])); break; } }
        }
        if bad.is_none() {
            // Let the handlers finish, then their own counts must agree.
            for _ in 0..2000 { if d.core().ssp == 0x0009_0000 { break; } let _ = d.step(via); d.bus.log.clear(); }
            for v in 2..256u32 { let n = d.bus.peek32(0x0003_0000 + v * 4); if n != expected[v as usize] { bad = Some(format!("handler of vector {v} ran {n} times for {} requests", expected[v as usize])); break; } }
        }
        if let Some(b) = bad { ctx.violation(it, "ledger", format!("{} {via:?}: {b}", K::NAME)); }
        let mut h = mix(K::ID ^ (via as u64) << 4);
        for v in 0..256 { h = mix(h ^ count[v] as u64); }
        ctx.eval(h);
    }
    ctx.count("requests issued", asked);
    ctx.count("exception entries observed", seen);
}

/// Exception then RTE: everything is as before, whatever the nesting.
fn rte_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let mut trips = 0u64;
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut d = Dut::<K>::new(Bus::new(rng.u64()));
        let mut c = gen_core(&mut rng, None, 0);
        c.ssp = 0x0009_0000u32 + 2 * rng.below(0x4000) as u32 + rng.pick(&[0, 0, 0x8000_0000, 0xFF00_0000]);
        c.usp = rng.u32();
        if c.pc < 0x1000 || c.pc.wrapping_sub(0x0004_0000) < 0x10000 || c.pc.wrapping_sub(c.ssp.wrapping_sub(1024)) < 1100 { c.pc = 0x5000; }
        let n = if rng.bool() { 1 } else { rng.range(2, 5) };
        let mut set: Vec<u8> = Vec::new();
        for _ in 0..n { let v = if rng.bool() { pick_vector(&mut rng, true) } else { rng.range(2, 255) as u8 }; if !set.contains(&v) { set.push(v); } }
        // Masked interrupts would fire later: keep to what is taken now.
        let mask = c.sr >> 8 & 7;
        set.retain(|v| !is_int(*v) || v & 7 == 7 || (*v & 7) as u16 > mask);
        if set.is_empty() { set.push(32 + rng.below(16) as u8); }
        let hb = 0x0004_0000u32;
        for v in &set {
            let h = hb + *v as u32 * 0x20;
            d.bus.poke32(*v as u32 * 4, h);
            let mut a = h;
            if K::FMT == Fmt::M68k && (*v == 2 || *v == 3) { d.bus.poke16(a, 0x508F); a += 2; }
            d.bus.poke16(a, 0x4E73);
        }
        d.set_core(&c);
        let via = rng.pick(&[Via::Exc, Via::DisExc]);
        for v in &set { d.request(*v); }
        let mut bad = None;
        let mut steps = 0;
        let mut returns = 0;
        loop {
            let before = d.core();
            d.bus.log.clear();
            let o = d.step(via);
            steps += 1;
            if let Some(p) = o.panicked { bad = Some(format!("panicked: {p}")); break; }
            if let Some(v) = o.vector { bad = Some(format!("raised {v} instead of returning")); break; }
            if d.bus.log.iter().any(|e| !e.write && e.size == 2 && e.val == 0x4E73) { returns += 1; }
            if returns == set.len() { break; }
            if steps > 40 { bad = Some("did not return".into()); break; }
            let _ = before;
        }
        let after = d.core();
        if bad.is_none() && after != c { bad = Some(format!("state after the return differs from the state at the exception:{}", after.diff(&c))); }
        if let Some(b) = bad { ctx.violation(it, &format!("round-trip:{}", K::NAME), format!("{} vectors {set:?} from SR {:04X} PC {:08X} SSP {:08X}: {b}", K::NAME, c.sr, c.pc, c.ssp)); }
        trips += returns as u64;
        ctx.eval(mix(c.sr as u64 ^ (set[0] as u64) << 16 ^ (set.len() as u64) << 24 ^ (via as u64) << 30 ^ K::ID << 33));
        if it % 9001 == 2 { ctx.sample(|| format!("{} vectors {set:?} SR {:04X} PC {:08X}: returned to PC {:08X} SR {:04X} in {steps} steps", K::NAME, c.sr, c.pc, after.pc, after.sr)); }
    }
    ctx.count("returns completed", trips);
}

/// Trace rule on the device alone: T at the start, completion and privilege decide, nothing else.
fn trace_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let mut p = Pair::<K>::new(0);
    let mut log = Vec::new();
    let (mut traced, mut untraced) = (0u64, 0u64);
    let t = by_name();
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let op = if rng.chance(1, 8) { rng.u16() } else { let ops = rng.below(t.len() as u64) as usize; t[ops][rng.below(t[ops].len() as u64) as usize] };
        let g = Gen { trace: Some(rng.chance(3, 4)), ..Default::default() };
        setup(&mut p, &mut rng, op, &g, &mut log);
        // Every second instruction that follows is run as well.
        let via = rng.pick(&[Via::Exc, Via::DisExc]);
        for _ in 0..2 {
            p.peek(&mut log);
            let (fault, pr, skip) = (p.m.r.vector, p.m.r.ins.map_or(false, |i| i.privileged()), p.m.r.unspec);
            let was = p.d.core();
            let o = p.d.step(via);
            if skip || o.panicked.is_some() || was.stop { break; }
            let raised = matches!(fault, Some(v) if v != 9);
            let t_on = was.sr & T != 0;
            let want = t_on && !raised && !pr;
            if want { traced += 1 } else { untraced += 1 }
            if (o.vector == Some(9)) != want {
                let op = p.m.r.op;
                ctx.violation(it, &format!("{}:trace", op_name(op)), format!("{} {via:?} {} (opcode {op:04X}) with SR {:04X} at its start reported {:?}, a trace was {}expected", K::NAME, op_name(op), was.sr, o.vector, if want { "" } else { "not " }));
            }
            ctx.eval(mix(p.m.r.op as u64 | (t_on as u64) << 16 | (o.vector.map_or(0x1FF, |v| v as u64)) << 17 | (was.sup() as u64) << 30 | K::ID << 32));
            if o.vector.is_some() { break; }
            // Continue from the new state with the same memory.
            let c = p.d.core();
            let ovl: Vec<(u32, u16)> = p.d.bus.log.iter().filter(|e| e.write).map(|e| (e.addr & !1, 0)).collect();
            for (a, _) in ovl { for k in 0..3 { let w = p.d.bus.peek16(a.wrapping_add(2 * k)); p.m.bus.poke16(a.wrapping_add(2 * k), w); } }
            p.m.c = c;
            p.m.pend = [0; 4];
        }
    }
    ctx.count("instructions that must trace", traced);
    ctx.count("instructions that must not trace", untraced);
}

/// Life cycle: new cores, reset from any state, stop and wake-up.
fn life_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let (mut resets, mut sleeps, mut wakes, mut kept) = (0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let via = rng.pick(&VIAS);
        let mut bus = Bus::new(rng.u64());
        let (ssp, pc) = (rng.u32() & !1, 0x1000 + 2 * rng.below(0x1_0000) as u32);
        match rng.below(3) {
            0 => {
                // A new core resets before its first instruction; a no-reset core does not.
                bus.poke32(0, ssp); bus.poke32(4, pc); bus.poke16(pc, NOP);
                let mut d = Dut::<K>::new(bus);
                let c0 = d.core();
                if c0 != Core::zero() { ctx.violation(it, "new-no-reset", format!("{}: initial state differs from zero and 0x2700:{}", K::NAME, c0.diff(&Core::zero()))); }
                d.cpu = m68000::M68000::<K>::new();
                if d.cpu.regs.sr.interrupt_mask != 7 || !d.cpu.regs.sr.s || d.cpu.regs.sr.t { ctx.violation(it, "new", "new core does not start with 0x2700".into()); }
                // The caller may prepare registers before the first step.
                let c = gen_core(&mut rng, None, 5);
                let prep = rng.bool();
                if prep { d.set_core(&c); }
                let was = d.core();
                let o = d.step(via);
                let mut want = was;
                want.ssp = ssp; want.pc = pc + 2; want.sr = was.sr & 0x1F | 0x2700; want.stop = false;
                resets += 1;
                if o.panicked.is_some() || d.core() != want { ctx.violation(it, "new:first-step", format!("{} {via:?}: {:?};{}", K::NAME, o.panicked, d.core().diff(&want))); }
                let wc = K::timing().VECTOR_RESET + K::timing().NOP;
                if o.panicked.is_none() && o.cycles != wc { ctx.violation(it, "new:cycles", format!("{}: {} cycles, expected {wc}", K::NAME, o.cycles)); }
                ctx.eval(mix(was.sr as u64 ^ K::ID << 20 ^ (via as u64) << 24 ^ 1 << 40));
            },
            1 => {
                // Reset from any state, stopped or not, with anything pending: all of it is discarded.
                let mut d = Dut::<K>::new(bus.clone());
                d.bus.poke32(0, ssp); d.bus.poke32(4, pc);
                for i in 0..8 { d.bus.poke16(pc + 2 * i, NOP); }
                d.bus.poke16(pc + 16, 0x46FC); d.bus.poke16(pc + 18, 0x2000);
                for i in 0..4 { d.bus.poke16(pc + 20 + 2 * i, NOP); }
                let mut c = gen_core(&mut rng, None, 20);
                c.stop = rng.bool();
                d.set_core(&c);
                let n = rng.below(6);
                let mut reqs: Vec<u8> = (0..n).map(|_| rng.range(2, 255) as u8).collect();
                let at = rng.below(n + 1) as usize;
                reqs.insert(at, 0);
                for v in &reqs { d.request(*v); }
                d.bus.log.clear();
                let o = d.step(via);
                let mut want = c;
                want.ssp = ssp; want.pc = pc + 2; want.sr = c.sr & 0x1F | 0x2700; want.stop = false;
                resets += 1;
                if o.panicked.is_some() || d.core() != want { ctx.violation(it, "reset:state", format!("{} {via:?} requests {reqs:?}: {:?};{}", K::NAME, o.panicked, d.core().diff(&want))); }
                if d.bus.log.iter().any(|e| e.write) { ctx.violation(it, "reset:frame", format!("{} requests {reqs:?}: a frame was pushed", K::NAME)); }
                // Nothing is left, even with the mask open.
                for k in 0..12 {
                    d.bus.log.clear();
                    let o = d.step(via);
                    if o.panicked.is_some() || o.vector.is_some() || d.bus.log.iter().any(|e| e.write || e.addr < 0x400) { ctx.violation(it, "reset:discard", format!("{} requests {reqs:?}: step {k} after the reset still took something: {:?}", K::NAME, d.bus.log)); break; }
                }
                ctx.eval(mix(c.sr as u64 ^ K::ID << 20 ^ (via as u64) << 24 ^ 2 << 40 ^ (reqs.len() as u64) << 42 ^ (c.stop as u64) << 45));
            },
            _ => {
                // STOP, then nothing until an admitted request.
                let mut c = gen_core(&mut rng, Some(true), 5);
                c.pc = pc; c.ssp = 0x0080_0000; c.sr = 0x2000 | rng.u16() & 0x71F;
                let imm = 0x2000 | rng.u16() & 0x071F | rng.u16() & rng.u16() & rng.u16() & 0x8000;
                bus.poke16(pc, 0x4E72); bus.poke16(pc + 2, imm);
                for i in 0..8 { bus.poke16(pc + 4 + 2 * i, NOP); }
                bus.poke32(0, 0x0070_0000); bus.poke32(4, 0x0060_0000); bus.poke16(0x0060_0000, NOP);
                for v in 2..=255u32 { bus.poke32(4 * v, 0x0050_0000 + v * 8); bus.poke16(0x0050_0000 + v * 8, NOP); }
                let mut d = Dut::<K>::new(bus);
                d.set_core(&c);
                // Interrupts already pending when the processor stops.
                let mut pend: Vec<u8> = Vec::new();
                for _ in 0..rng.below(3) { let v = if rng.bool() { rng.range(25, 31) } else { rng.range(57, 63) } as u8; if v & 7 != 7 && (v & 7) as u16 <= c.sr >> 8 & 7 { d.request(v); if !pend.contains(&v) { pend.push(v); } } }
                let o = d.step(via);
                if o.panicked.is_some() { ctx.violation(it, "stop:panic", format!("{:?}", o.panicked)); continue; }
                if !d.cpu.stop || d.core().sr != imm & SR_MASK || d.core().pc != pc + 4 { ctx.violation(it, "stop:state", format!("{} STOP #{imm:04X}:{}", K::NAME, d.core().diff(&c))); continue; }
                let mask = imm >> 8 & 7;
                let admits = |v: u8| v & 7 == 7 || (v & 7) as u16 > mask;
                let mut awake = pend.iter().any(|v| admits(*v));
                let mut bad = None;
                for k in 0..rng.range(1, 8) {
                    if !awake && rng.bool() {
                        let v = match rng.below(8) { 0 => 0u8, 1 => 9, 2..=4 => rng.range(57, 63) as u8, _ => rng.range(25, 31) as u8 };
                        d.request(v);
                        if !pend.contains(&v) { pend.push(v); }
                        awake = v == 0 || v == 9 || admits(v);
                    }
                    let was = d.core();
                    d.bus.log.clear();
                    let o = d.step(via);
                    if let Some(p) = o.panicked { bad = Some(format!("panicked: {p}")); break; }
                    if !awake {
                        sleeps += 1;
                        kept += pend.len() as u64;
                        if o.cycles != 0 || o.vector.is_some() || !d.bus.log.is_empty() || !o.text.is_empty() { bad = Some(format!("step {k} while stopped: {} cycles, vector {:?}, {} accesses, text {:?}; pending {pend:?}, mask {mask}", o.cycles, o.vector, d.bus.log.len(), o.text)); break; }
                        let mut now = d.core(); let mut w = was; now.stop = false; w.stop = false;
                        if now != w { bad = Some(format!("state changed while stopped:{}", now.diff(&w))); break; }
                        if !d.cpu.stop { bad = Some(format!("left the stopped state; pending {pend:?}, mask {mask}")); break; }
                    } else {
                        wakes += 1;
                        if d.cpu.stop { bad = Some(format!("still stopped although {pend:?} is pending at mask {mask}")); break; }
                        let reset = pend.contains(&0);
                        let mut want: Vec<u8> = pend.iter().copied().filter(|v| *v == 9 || admits(*v)).collect();
                        want.sort_by_key(|v| if *v == 9 { 100 } else { v & 7 });
                        let top = *want.last().unwrap_or(&0);
                        let npc = d.core().pc;
                        let ok = if reset { npc == 0x0060_0002 } else { npc == 0x0050_0002 + top as u32 * 8 || want.len() > 1 && want.iter().any(|v| v & 7 == top & 7 && npc == 0x0050_0002 + *v as u32 * 8) };
                        if !ok { bad = Some(format!("woken by {pend:?} at mask {mask} but executes at {npc:08X}")); }
                        if !reset && bad.is_none() {
                            // The frame of the first handled exception saves the address after STOP.
                            let l = d.bus.peek32(was.ssp.wrapping_sub(if K::FMT == Fmt::M68k { 4 } else { 6 }));
                            if l != pc + 4 { bad = Some(format!("saved PC {l:08X}, expected {:08X}", pc + 4)); }
                        }
                        break;
                    }
                }
                if let Some(b) = bad { ctx.violation(it, "stop:wake", format!("{} {via:?} STOP #{imm:04X}: {b}", K::NAME)); }
                let mut h = mix(imm as u64 ^ K::ID << 20 ^ (via as u64) << 24 ^ 3 << 40 ^ (awake as u64) << 44);
                for v in &pend { h = mix(h ^ *v as u64); }
                ctx.eval(h);
                if it % 8009 == 2 { ctx.sample(|| format!("{} STOP #{imm:04X} with requests {pend:?}: {}", K::NAME, if awake { "woke" } else { "stayed stopped" })); }
            },
        }
    }
    ctx.count("resets", resets);
    ctx.count("stopped steps", sleeps);
    ctx.count("wake-ups", wakes);
    ctx.count("blocked requests observed while stopped", kept);
}

/// Fault enumeration: the fault-free run of an instruction (with the exception entry before it, sometimes) is recorded, then
/// each of its accesses is refused in turn.
fn fault_unit<K: Kind>(ctx: &mut Ctx, unit: u64, lane: u64, its: Range<u64>) {
    let mut p = Pair::<K>::new(0);
    let mut out = Vec::new();
    let mut log = Vec::new();
    let (mut faults, mut clean, mut redo, mut entry) = (0u64, 0u64, 0u64, 0u64);
    let t = by_name();
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let ops = &t[((it + lane) % t.len() as u64) as usize];
        let op = ops[rng.below(ops.len() as u64) as usize];
        let via = rng.pick(&[Via::Exc, Via::Exc, Via::DisExc]);
        let g = Gen { odd_pct: 1, ..Default::default() };
        setup(&mut p, &mut rng, op, &g, &mut log);
        let with_exc = rng.chance(1, 6);
        let mut req = 0u8;
        if with_exc {
            // The faulting access may also belong to exception processing.
            let mut c = p.m.c;
            c.ssp = (c.ssp | 0x1_0000) & !1;
            p.set_core(&c);
            req = if rng.bool() { pick_vector(&mut rng, true) } else { rng.range(2, 255) as u8 };
            p.poke32(req as u32 * 4, 0x0003_0000);
            p.poke16(0x0003_0000, op);
            if rng.chance(1, 16) { req = 0; p.poke32(4, 0x0003_0000); }
            p.request(req);
        }
        let base = p.d.bus.clone();
        let core = p.m.c;
        p.peek(&mut log);
        if p.m.r.unspec || p.m.r.halt { continue; }
        if matches!(p.m.r.vector, Some(2 | 3)) { continue; }
        let split = rng.chance(1, 8);
        let n = log.len().min(40);
        let order: Vec<usize> = if n <= 8 { (0..n).collect() } else { let mut v: Vec<usize> = (0..8).map(|_| rng.below(n as u64) as usize).collect(); v.sort(); v.dedup(); v };
        for (j, k) in order.iter().map(|k| (*k, log[*k])) {
            // Restore the original state.
            p.d.cpu = m68000::M68000::<K>::new_no_reset();
            p.m.pend = [0; 4]; p.m.op = 0xFFFF;
            p.d.bus = base.clone(); p.m.bus = base.clone();
            p.set_core(&core);
            if with_exc { p.request(req); }
            let a = k.addr.wrapping_add(rng.below(k.size as u64) as u32);
            let (lo, hi) = match rng.below(4) { 0 => (a, a), 1 => (k.addr, k.addr.saturating_add(k.size as u32 - 1)), 2 => (a & !1, a | 1), _ => (a & !0xF, a | 0xF) };
            let (r, w) = rng.pick(&[(true, true), (!k.write, k.write), (!k.write, k.write)]);
            p.hole(lo, hi, r, w);
            p.set_split(split);
            p.step(via, &mut out);
            if p.known {
                p.set_split(false);
                let m = out.iter().find(|d| d.aspect == A_PANIC).map(|d| d.msg.clone()).unwrap_or_default();
                ctx.finding(it, EXT_FAULT, &format!("{}:ext-fetch", op_name(op)), format!("{} {via:?} opcode {op:04X} with the extension word at {:08X} refused: {m}", K::NAME, k.addr));
                continue;
            }
            if !p.m.r.failed.is_empty() { entry += 1; }
            if matches!(p.m.r.vector, Some(2 | 3)) { faults += 1; } else { clean += 1; }
            ctx.eval(mix(op as u64 | (j as u64) << 16 | (k.write as u64) << 24 | (p.m.r.vector.map_or(0x1FF, |v| v as u64)) << 25 | K::ID << 36 | (via as u64) << 40 | (with_exc as u64) << 42 | (p.m.r.failed.len() as u64) << 44));
            let stop = report_fault(ctx, it, &p, &out, &k);
            if stop { p.set_split(false); break; }
            let halted = p.m.r.halt;
            let after = p.d.core();
            let _ = after;
            // Same machine again, original state, fault removed: completes as if it had never happened.
            if !halted && !with_exc && matches!(p.m.r.vector, Some(2 | 3)) {
                p.no_holes();
                let touched: Vec<u32> = p.d.bus.log.iter().filter(|e| e.write && e.ok).flat_map(|e| (0..e.size as u32).map(move |i| e.addr.wrapping_add(i))).collect();
                for x in touched { let v = base.peek8(x); p.poke8(x, v); }
                p.set_core(&core);
                p.step(via, &mut out);
                redo += 1;
                let stop = report_fault(ctx, it, &p, &out, &k);
                if matches!(p.obs.vector, Some(2 | 3)) { ctx.violation(it, &format!("{}:redo", op_name(op)), format!("{} opcode {op:04X} re-executed without the fault still reports {:?}", K::NAME, p.obs.vector)); }
                if stop { p.set_split(false); break; }
            }
            p.set_split(false);
            if it % 20011 == 3 { ctx.sample(|| format!("{} {} refusing {} of {} bytes at {:08X} (access {j} of {n}): vector {:?}", K::NAME, op_name(op), if k.write { "write" } else { "read" }, k.size, k.addr, p.m.r.vector)); }
        }
        p.no_holes();
    }
    ctx.count("refused accesses", faults);
    ctx.count("steps with a hole that was not touched as refused", clean);
    ctx.count("re-executions without the fault", redo);
    ctx.count("faults during exception processing", entry);
}

/// Every access made while pending exceptions are taken is refused in turn; then the memory works again (sometimes only a
/// few steps later), and everything that is pending must be taken, one way or the other.
fn refused_unit<K: Kind>(ctx: &mut Ctx, unit: u64, its: Range<u64>, aspects: u32) {
    let c = Cfg { steps: 8, aspects, ..CFG };
    let (mut failed, mut ints, mut seven, mut later) = (0u64, 0u64, 0u64, 0u64);
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let mut p = Pair::<K>::new(0);
        let (mut out, mut log) = (Vec::new(), Vec::new());
        p.reset_to(rng.u64());
        let l = install(&mut p, &mut rng, &c, true);
        for i in 0..64u32 { p.poke16(l.prog.wrapping_add(2 * i), 0x4E71); }
        let mut core = gen_core(&mut rng, None, 0);
        core.pc = l.prog; core.ssp = l.ssp; core.usp = l.usp; core.stop = false;
        core.sr &= !T;
        if rng.chance(1, 8) { core.sr |= T; }
        if rng.chance(1, 16) { core.ssp |= 1; }
        let mut req: Vec<u8> = Vec::new();
        for _ in 0..rng.pick(&[1u64, 1, 1, 2, 3]) {
            let v = pick_vector(&mut rng, true);
            if v != 0 && !req.iter().any(|x| ambiguous(*x, v) || *x == v) { req.push(v); }
        }
        p.set_core(&core);
        for v in &req { p.request(*v); }
        let base = p.d.bus.clone();
        p.peek(&mut log);
        if p.m.r.unspec || p.m.r.halt || p.m.r.taken.is_empty() { continue; }
        let n = log.len();
        let order: Vec<usize> = if n <= 12 { (0..n).collect() } else { let mut v: Vec<usize> = (0..12).map(|_| rng.below(n as u64) as usize).collect(); v.sort(); v.dedup(); v };
        'access: for k in order.into_iter().map(|k| log[k]) {
            p.fresh_cpu();
            p.d.bus = base.clone(); p.m.bus = base.clone();
            p.set_core(&core);
            for v in &req { p.request(*v); }
            p.hole(k.addr, k.addr.saturating_add(k.size as u32 - 1), !k.write, k.write);
            let stay = rng.pick(&[1u64, 1, 1, 2, 3]);
            for step in 0..8u64 {
                if step == stay { p.no_holes(); }
                if step == 5 { let mut k = p.m.c; k.sr &= !0x0700; p.set_core(&k); }
                let pending = p.m.pending_list();
                if pending.iter().any(|a| pending.iter().any(|b| a != b && ambiguous(*a, *b))) { break; }
                let via = rng.pick(&VIAS);
                p.step(via, &mut out);
                if p.known { break 'access; }
                if p.m.r.unspec && matches!(via, Via::Own | Via::DisOwn) && p.obs.panicked.is_none() { break; }
                for f in &p.m.r.failed { failed += 1; if is_int(f.0) { ints += 1; if f.0 & 7 == 7 { seven += 1; } } }
                later += p.m.r.taken.len() as u64;
                ctx.eval(mix(0xE000 ^ p.m.r.taken.iter().fold(step, |h, v| mix(h ^ *v as u64)) ^ p.m.r.failed.iter().fold(1, |h, v| mix(h ^ v.0 as u64 ^ (v.1 as u64) << 8)) ^ K::ID << 54));
                for d in &out {
                    if d.aspect & aspects != 0 {
                        let m = describe(K::NAME, &p.pre, p.m.r.op, &[], via, d) + &format!("; {req:?} requested, {} {:08X} refused for {stay} steps, step {step}: pending {pending:?} taken {:?} failed {:?}", if k.write { "write" } else { "read" }, k.addr, p.m.r.taken, p.m.r.failed);
                        ctx.violation(it, &format!("entry-fault:{}", aspect_name(d.aspect & aspects)), m);
                    }
                }
                if !out.is_empty() { break 'access; }
                if p.m.r.halt { break; }
                if p.m.c.ssp & 1 != 0 { let mut k = p.m.c; k.ssp = l.ssp; p.set_core(&k); }
            }
        }
    }
    ctx.count("refused entries", failed);
    ctx.count("refused entries of interrupts", ints);
    ctx.count("refused entries of level 7", seven);
    ctx.count("exceptions taken around refused entries", later);
}

fn report_fault<K: Kind>(ctx: &mut Ctx, it: u64, p: &Pair<K>, out: &[Diff], k: &Ev) -> bool {
    let mut bad = false;
    for d in out {
        if d.aspect & (A_FAULT | A_VEC | A_ODD | A_STATE | A_PANIC) == 0 { continue; }
        bad = true;
        let name = if p.m.r.fetched { op_name(p.m.r.op) } else { "no-instruction" };
        let ex = exts(p);
        let m = describe(K::NAME, &p.pre, p.m.r.op, &ex, p.via, d) + &format!("; refused {} at {:08X}; taken {:?} failed {:?}; bus {:?}", if k.write { "write" } else { "read" }, k.addr, p.m.r.taken, p.m.r.failed, p.d.bus.log);
        ctx.violation(it, &format!("{name}:{}", aspect_name(d.aspect & (A_FAULT | A_VEC | A_ODD | A_STATE | A_PANIC))), m);
    }
    bad
}

/// Misaligned operands, stacks and program counters.
fn odd_unit<K: Kind>(ctx: &mut Ctx, unit: u64, lane: u64, its: Range<u64>) {
    let mut p = Pair::<K>::new(0);
    let mut out = Vec::new();
    let mut log = Vec::new();
    let (mut faults, mut fine) = (0u64, 0u64);
    let t = by_name();
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let ops = &t[((it + lane) % t.len() as u64) as usize];
        let op = ops[rng.below(ops.len() as u64) as usize];
        let via = rng.pick(&[Via::Exc, Via::DisExc]);
        setup(&mut p, &mut rng, op, &Gen { aligned: false, ..Default::default() }, &mut log);
        if rng.chance(1, 40) { let mut c = p.m.c; c.pc |= 1; p.set_core(&c); }
        if rng.chance(1, 10) { let v = rng.range(2, 255) as u8; p.request(v); }
        p.step(via, &mut out);
        if p.m.r.unspec || p.m.r.halt { continue; }
        if matches!(p.m.r.vector, Some(3)) { faults += 1 } else { fine += 1 }
        let k = Ev { write: false, size: 0, addr: 0, val: 0, ok: true };
        report_fault(ctx, it, &p, &out, &k);
        ctx.eval(mix(op as u64 | (p.m.r.vector.map_or(0x1FF, |v| v as u64)) << 17 | K::ID << 30 | (p.m.r.failed.len() as u64) << 34 | (p.d.bus.log.len() as u64) << 40));
    }
    ctx.count("address errors", faults);
    ctx.count("steps without an address error", fine);
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let n = |q: u64| if thorough { q * 25 } else { q };
    const R: &str = "distinct (vector, status register at entry, way of stepping, processor type, entries taken and failed), frame chains and executed (opcode, vector, status) triples";
    Some(match p {
        "C11" => (opts("C11", R, 50_000), vec![
            work("entry", 64, n(30_000), |c, u, i| kinds!(u, entry_unit(c, u, i, A_STATE | A_PANIC))),
            histories("entry-in-programs", 32, n(150), Cfg { aspects: A_ADDR | A_SYS | A_PC | A_WRITE | A_WADDR | A_PANIC, req: 60, ..CFG }),
        ]),
        "C12" => (opts("C12", R, 20_000), vec![
            work("pending-sets", 64, n(2_500), |c, u, i| kinds!(u, sets_unit(c, u, i))),
            work("ledger", 64, n(250), |c, u, i| kinds!(u, ledger_unit(c, u, i))),
            work("refused-entries", 64, n(200), |c, u, i| kinds!(u, refused_unit(c, u, i, A_STATE | A_PANIC))),
            histories("interrupt-histories", 32, n(200), Cfg { aspects: A_ADDR | A_SYS | A_PC | A_WRITE | A_WADDR | A_PANIC, req: 150, ints: true, trace: 10, ..CFG }),
        ]),
        "C13" => (opts("C13", R, 20_000), vec![
            work("round-trip", 64, n(15_000), |c, u, i| kinds!(u, rte_unit(c, u, i))),
            sweep("rte-frames", |_, i| matches!(i, Some(Ins::Rte)), n(1_000_000), Spec { sup: None, ..BASE }),
            sweep_tags("rte-frames-custom", |_, i| matches!(i, Some(Ins::Rte)), n(300_000), Spec { sup: None, ..BASE }),
            crate::grid::grids::<Mc68000, Scc68070>(13, thorough, true, Spec { sup: Some(true), ..BASE }),
        ]),
        "C14" => (opts("C14", R, 20_000), vec![
            work("trace-rule", 64, n(20_000), |c, u, i| kinds!(u, trace_unit(c, u, i))),
            histories("traced-programs", 32, n(200), Cfg { aspects: A_VEC | A_SYS | A_PC | A_PANIC, trace: 80, req: 15, ..CFG }),
        ]),
        "C15" => (opts("C15", R, 20_000), vec![
            work("life-cycle", 64, n(5_000), |c, u, i| kinds!(u, life_unit(c, u, i))),
            histories("stopping-programs", 32, n(200), Cfg { aspects: A_SYS | A_PC | A_CYC | A_ADDR | A_PANIC, stops: 90, req: 60, ints: true, trace: 10, ..CFG }),
        ]),
        "C18" => {
            let mut o = opts("C18", "distinct (opcode, index of the refused access, direction, resulting vector, exception entry involved or not, processor type)", 100_000);
            o.level = "fault_enumeration";
            (o, vec![
                work("refused-accesses", 64, n(6_000), |c, u, i| kinds!(u, fault_unit(c, u, u / 4, i))),
                work("refused-entries", 64, n(200), |c, u, i| kinds!(u, refused_unit(c, u, i, A_STATE | A_PANIC | A_FAULT))),
                work("misaligned", 64, n(20_000), |c, u, i| kinds!(u, odd_unit(c, u, u / 4, i))),
            ])
        },
        _ => return None,
    })
}

#[allow(dead_code)]
fn unused(_: Mc68000, _: Scc68070, _: TagA, _: TagB) {}
