//! Multi-step workloads: guest programs mixing every instruction with traps, interrupts, tracing, stopped periods, faults
//! and self-modification, executed in lockstep with the reference machine.
use crate::bus::*;
use crate::isa68k::*;
use crate::lockstep::*;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::single::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

/// Opcodes of each instruction name.
pub fn by_name() -> &'static Vec<Vec<u16>> {
    static T: OnceLock<Vec<Vec<u16>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut m: BTreeMap<&'static str, Vec<u16>> = BTreeMap::new();
        for o in 0..=0xFFFFu16 { if let Some(i) = decode(o) { m.entry(isa_name(&i)).or_default().push(o); } }
        m.into_values().collect()
    })
}

/// A random instruction stream; branches stay close.
pub fn gen_program(rng: &mut Rng, words: usize) -> Vec<u16> {
    let t = by_name();
    let mut v = Vec::with_capacity(words + 8);
    while v.len() < words {
        let ops = &t[rng.below(t.len() as u64) as usize];
        let mut op = ops[rng.below(ops.len() as u64) as usize];
        let Some(ins) = decode(op) else { continue };
        // Long jumps and returns are rarer than the rest.
        if matches!(ins, Ins::Jmp(_) | Ins::Rte | Ins::Rts | Ins::Rtr | Ins::Illegal | Ins::Stop) && rng.chance(3, 4) { continue; }
        if op >> 12 == 6 && rng.chance(9, 10) {
            let d = rng.pick(&[2u16, 4, 6, 8, 10, 0xFC, 0xF8, 0xF0, 0xE0]);
            op = op & 0xFF00 | d;
        }
        let Some(ins) = decode(op) else { continue };
        // Boundary values in the operand registers.
        if rng.chance(1, 8) {
            let r = if rng.bool() { op >> 9 & 7 } else { op & 7 };
            let x = rng.operand();
            v.extend([0x203C | r << 9, (x >> 16) as u16, x as u16]);
        }
        v.push(op);
        for _ in 0..ext_words(&ins) {
            let mut e = gen_ext(rng);
            if matches!(ins, Ins::Dbcc { .. } | Ins::Bcc { .. } | Ins::Bra(_) | Ins::Bsr(_)) { e = rng.pick(&[2u16, 4, 8, 0xFFFC, 0xFFF0, 0xFFE0, 0x10, 0x20]); }
            v.push(e);
        }
    }
    v
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub steps: u64,
    pub aspects: u32,
    /// Requests per thousand steps.
    pub req: u64,
    /// Which vectors are requested: 0 any, 1 mostly interrupts.
    pub ints: bool,
    /// Percent of programs that start with the trace bit set, and percent of handlers that touch the trace bit.
    pub trace: u64,
    pub stops: u64,
    pub holes: bool,
    pub fixed_via: Option<Via>,
    /// Random memory instead of a generated program.
    pub wild: u64,
    pub smc: bool,
    pub user: Option<bool>,
    pub no_req_reset: bool,
}
pub const CFG: Cfg = Cfg { steps: 400, aspects: A_STATE | A_PANIC, req: 30, ints: false, trace: 25, stops: 10, holes: false, fixed_via: None, wild: 15, smc: true, user: None, no_req_reset: false };

pub struct Layout { pub prog: u32, pub len: u32, pub hbase: u32, pub ssp: u32, pub usp: u32 }

/// Writes the vector table and a handler for every vector.
pub fn install<K: Kind>(p: &mut Pair<K>, rng: &mut Rng, c: &Cfg, simple: bool) -> Layout {
    let prog = 0x0002_0000 + (rng.below(0x1000) as u32) * 2 + if rng.chance(1, 4) { rng.u32() & 0xFFF0_0000 } else { 0 };
    let hbase = 0x0001_0000 + (rng.below(0x100) as u32) * 2;
    let l = Layout { prog, len: 0, hbase, ssp: 0x0008_0000 + (rng.below(0x4000) as u32) * 2, usp: 0x000C_0000 + (rng.below(0x4000) as u32) * 2 };
    p.poke32(0, l.ssp);
    p.poke32(4, prog);
    for v in 2..256u32 {
        let h = hbase + v * 0x40;
        p.poke32(4 * v, h);
        let mut code: Vec<u16> = Vec::with_capacity(16);
        match v {
            2 | 3 => {
                if K::FMT == Fmt::M68k { code.push(0x508F); }
                let t = l.prog;
                code.extend([0x2F7C, (t >> 16) as u16, t as u16, 2]);
            },
            14 => { let t = l.prog; code.extend([0x2F7C, (t >> 16) as u16, t as u16, 2]); },
            4 | 8 | 10 | 11 => code.extend([0x54AF, 2]),
            _ => {},
        }
        if !simple {
            let n = if v < 32 || rng.chance(1, 4) { rng.below(3) } else { 0 };
            for _ in 0..n {
                match rng.below(16) {
                    0 => code.extend([0x0A57, 0x2000]),
                    1 | 2 => if rng.below(100) < c.trace { code.extend([0x0A57, 0x8000]) },
                    3 => code.extend([0x0A57, (rng.below(8) as u16) << 8]),
                    4 => code.extend([0x0A57, rng.u16() & 0x1F]),
                    5 => if rng.below(100) < c.stops { code.extend([0x4E72, 0x2000 | (rng.below(8) as u16) << 8]) },
                    6 => code.extend([0x46FC, 0x2000 | (rng.below(8) as u16) << 8 | if rng.below(100) < c.trace { 0x8000 } else { 0 }]),
                    7 => code.push(0x4E40 | rng.below(16) as u16),
                    8 => code.push(0x4E60 | rng.below(16) as u16),
                    9 => code.extend([0x027C, 0xF8FF | (rng.below(8) as u16) << 8]),
                    10 => code.extend([0x007C, rng.u16() & 0x0700]),
                    11 => code.push(0x4E70),
                    _ => code.push(rng.pick(&[0x5280, 0x4E71, 0x7000, 0x4840, 0x4A40, 0x5241])),
                }
                if code.len() > 24 { break; }
            }
        }
        code.push(0x4E73);
        for (i, w) in code.iter().enumerate() { p.poke16(h + 2 * i as u32, *w); }
    }
    l
}

/// True when the order in which two vectors are processed together is not specified.
pub fn ambiguous(a: u8, b: u8) -> bool {
    if a == b || a == 0 || b == 0 { return false; }
    let ext = |v: u8| v == 24 || v >= 64;
    let int = |v: u8| is_int(v) || ext(v);
    if int(a) && int(b) { return ext(a) || ext(b) || a & 7 == b & 7; }
    prio(a) == prio(b)
}

pub fn pick_vector(rng: &mut Rng, ints: bool) -> u8 {
    match rng.below(if ints { 24 } else { 16 }) {
        0 => rng.range(2, 3) as u8,
        1 => rng.pick(&[4, 8, 9, 10, 11]),
        2 => rng.range(2, 255) as u8,
        3 => rng.range(32, 47) as u8,
        4 => rng.range(64, 255) as u8,
        5 => rng.pick(&[24, 15, 12, 48, 5, 6, 7]),
        6..=9 => rng.range(57, 63) as u8,
        _ => rng.range(25, 31) as u8,
    }
}

#[derive(Default)]
pub struct Stat { pub steps: u64, pub taken: u64, pub raised: u64, pub traces: u64, pub stopped: u64, pub woken: u64, pub resets: u64, pub faults: u64, pub episodes: u64, pub halts: u64, pub self_mod: u64, pub user_steps: u64, pub requested: u64, pub masked: u64, pub drained: u64, pub known: u64 }
impl Stat {
    pub fn report(&self, ctx: &mut Ctx) {
        for (k, v) in [("steps", self.steps), ("exceptions taken", self.taken), ("exceptions raised by instructions", self.raised), ("trace exceptions", self.traces), ("stopped steps", self.stopped), ("wake-ups", self.woken),
            ("resets", self.resets), ("faulting steps", self.faults), ("episodes", self.episodes), ("halts", self.halts), ("executed words written by the guest", self.self_mod), ("user-mode steps", self.user_steps),
            ("external requests", self.requested), ("requests pending behind the mask", self.masked), ("pending exceptions drained", self.drained)] { if v > 0 { ctx.count(k, v); } }
    }
}

/// Runs one episode; returns false after a violation.
pub fn episode<K: Kind>(ctx: &mut Ctx, unit: u64, it: u64, c: &Cfg, st: &mut Stat) {
    let mut rng = ctx.rng(unit, it);
    let mut p = Pair::<K>::new(0);
    let mut out: Vec<Diff> = Vec::new();
    p.reset_to(rng.u64());
    p.set_fill(if rng.bool() { Fill::Random } else { Fill::Edge });
    let mut l = install(&mut p, &mut rng, c, false);
    let wild = rng.below(100) < c.wild;
    if !wild {
        let n = rng.range(16, 160) as usize;
        let code = gen_program(&mut rng, n);
        l.len = 2 * code.len() as u32;
        for (i, w) in code.iter().enumerate() { p.poke16(l.prog.wrapping_add(2 * i as u32), *w); }
        // Back to the start.
        let e = l.prog.wrapping_add(l.len);
        p.poke16(e, 0x4EF9);
        p.poke32(e.wrapping_add(2), l.prog);
    }
    let mut core = gen_core(&mut rng, c.user.map(|u| !u), 5);
    core.pc = l.prog; core.ssp = l.ssp; core.usp = l.usp;
    if rng.below(100) >= c.trace { core.sr &= !T; } else { core.sr |= T; }
    if c.smc { for _ in 0..rng.below(3) { core.a[rng.below(7) as usize] = l.prog.wrapping_add(2 * rng.below(40) as u32); } }
    p.set_core(&core);
    if rng.chance(1, 16) && !c.no_req_reset { p.request(0); }
    if c.holes {
        for _ in 0..rng.range(1, 4) {
            let near = match rng.below(8) { 0 => l.prog.wrapping_add(2 * rng.below(100) as u32), 1 => l.ssp.wrapping_sub(rng.below(128) as u32), 2 => l.usp.wrapping_sub(rng.below(64) as u32), 3 => core.a[rng.below(7) as usize], 4 => rng.below(0x400) as u32, _ => rng.u32() };
            let len = rng.pick(&[0u32, 1, 3, 15, 0xFFFF, 0x0FFF_FFFF]);
            let (r, w) = rng.pick(&[(true, true), (true, true), (false, true), (true, false)]);
            p.hole(near, near.saturating_add(len), r, w);
        }
    }
    let via0 = rng.pick(&VIAS);
    let mixed = rng.bool();
    let split = rng.chance(1, 8);
    p.set_split(split);
    st.episodes += 1;
    let mut odd_ssp = 0;
    let mut stopped = 0u32;
    let mut shape = mix(it);
    let mut written: FxSet<u32> = Default::default();
    for step in 0..c.steps {
        if ctx.stopping() { break; }
        // Requests from outside.
        if rng.below(1000) < c.req || stopped > 3 && rng.chance(1, 3) {
            for _ in 0..rng.pick(&[1u64, 1, 1, 2, 3]) {
                let v = if stopped > 0 && rng.chance(3, 4) { rng.pick(&[25u8, 26, 27, 28, 29, 30, 31, 57, 60, 63, 31]) } else if rng.chance(1, 40) && !c.no_req_reset { 0 } else { pick_vector(&mut rng, c.ints) };
                if p.m.c.stop && !(is_int(v) || v == 0 || v == 9) { continue; }
                if p.m.pending_list().iter().any(|x| ambiguous(*x, v)) { continue; }
                if p.m.masked(v) { st.masked += 1; }
                st.requested += 1;
                let was = p.m.c.stop;
                p.request(v);
                if was && !p.m.c.stop { st.woken += 1; stopped = 0; }
            }
        }
        let via = match c.fixed_via { Some(v) => v, None => if mixed { rng.pick(&VIAS) } else { via0 } };
        let before_pend = p.m.any_pending();
        p.step(via, &mut out);
        if ctx.replay && std::env::var("MON_TRACE").is_ok() { println!("{step} {via:?} at {:08X} op {:04X} {:?} vec {:?}/{:?} taken {:?} failed {:?} pend {:?} SR {:04X} SSP {:08X} PC {:08X} log {:?}", p.m.r.at, p.m.r.op, p.m.r.ins, p.m.r.vector, p.obs.vector, p.m.r.taken, p.m.r.failed, p.m.pending_list(), p.m.c.sr, p.m.c.ssp, p.m.c.pc, p.d.bus.log.iter().map(|e| (e.write, e.addr, e.val)).collect::<Vec<_>>()); }
        st.steps += 1;
        let r = &p.m.r;
        st.taken += r.taken.len() as u64;
        if r.reset { st.resets += 1; }
        if p.m.before.sr & S == 0 { st.user_steps += 1; }
        match r.vector { Some(9) => st.traces += 1, Some(2 | 3) => st.faults += 1, Some(_) => st.raised += 1, None => {} }
        if r.fetched && written.contains(&(r.at >> 1)) { st.self_mod += 1; }
        for e in &p.d.bus.log { if e.write && e.ok && e.addr.wrapping_sub(l.prog) < 0x2000 { written.insert(e.addr >> 1); } }
        if p.pre.stop { if p.m.c.stop { st.stopped += 1; stopped += 1; } else { st.woken += 1; stopped = 0; } } else { stopped = 0; }
        shape = mix(shape ^ r.op as u64 ^ (r.vector.map_or(0x1FF, |v| v as u64)) << 16 ^ (r.taken.len() as u64) << 32 ^ (p.m.c.sr as u64) << 40);
        ctx.eval(mix(r.op as u64 ^ (r.vector.map_or(0x1FF, |v| v as u64)) << 16 ^ (p.m.c.sr as u64) << 25 ^ (r.taken.first().map_or(0, |v| *v as u64)) << 42 ^ (via as u64) << 51 ^ K::ID << 54));
        if p.known { st.known += 1; let m = out.iter().find(|d| d.aspect == A_PANIC).map(|d| d.msg.clone()).unwrap_or_default(); ctx.finding_or(it, c.aspects & A_PANIC != 0, EXT_FAULT, "panic", format!("{} step {step}: {m}", K::NAME)); return; }
        // A vector nothing is specified about was submitted without being visible.
        if p.m.r.unspec && matches!(via, Via::Own | Via::DisOwn) && p.obs.panicked.is_none() { return; }
        let mut bad = false;
        let halted = p.m.r.halt;
        let (pre, op) = (p.pre, p.m.r.op);
        for d in &out {
            if d.aspect & c.aspects != 0 {
                let name = if p.m.r.fetched { op_name(op) } else { "no-instruction" };
                let sig = format!("{name}:{}", aspect_name(d.aspect & c.aspects));
                let ex = exts(&p);
                let mut msg = describe(K::NAME, &pre, op, &ex, via, d);
                msg += &format!("; step {step}, pending before: {before_pend}, taken {:?}, raised {:?}, failed {:?}", p.m.r.taken, p.m.r.vector, p.m.r.failed);
                ctx.violation(it, &sig, msg);
            }
            bad = true;
        }
        if halted { st.halts += 1; return; }
        if bad { return; }
        // Keep the machine alive.
        if p.m.c.ssp & 1 != 0 || p.m.c.ssp < 0x2000 { odd_ssp += 1; } else { odd_ssp = 0; }
        if odd_ssp > 6 { let mut k = p.m.c; k.ssp = l.ssp; p.set_core(&k); odd_ssp = 0; }
        if p.m.c.pc & 1 != 0 && rng.chance(1, 8) { let mut k = p.m.c; k.pc = l.prog; p.set_core(&k); }
    }
    // Nothing pending may be lost: open the mask and let everything be taken.
    if c.holes { return; }
    for _ in 0..4 {
        let list = p.m.pending_list();
        if list.is_empty() && p.m.r.vector.is_none() { break; }
        st.drained += list.len() as u64;
        let mut k = p.m.c;
        k.sr &= !0x0700; k.stop = false; k.pc = l.prog; k.ssp = l.ssp;
        p.set_core(&k);
        if list.iter().any(|a| list.iter().any(|b| ambiguous(*a, *b))) { break; }
        p.step(Via::Exc, &mut out);
        if p.known { break; }
        for d in &out {
            if d.aspect & c.aspects != 0 { ctx.violation(it, &format!("drain:{}", aspect_name(d.aspect & c.aspects)), format!("{} draining {list:?}: {}", K::NAME, d.msg)); }
        }
        if !out.is_empty() { break; }
    }
    if it % 97 == 3 { ctx.sample(|| format!("{} episode {it}: {} steps, shape {shape:016x}, final {:?}", K::NAME, c.steps, p.m.c)); }
}

/// Known finding: the fetch of an extension word is refused.
pub const EXT_FAULT: &str = "extension-word-fetch-refused";

pub fn histories(name: &'static str, units: u64, iters: u64, c: Cfg) -> Work {
    use crate::timing::{TagA, TagB};
    use m68000::cpu_details::{Mc68000, Scc68070};
    work(name, units, iters, move |ctx, unit, its| {
        let mut st = Stat::default();
        for it in its {
            if ctx.stopping() { break; }
            ctx.beat(it);
            match (unit + it) % 8 { 0..=2 => episode::<Mc68000>(ctx, unit, it, &c, &mut st), 3..=5 => episode::<Scc68070>(ctx, unit, it, &c, &mut st), 6 => episode::<TagA>(ctx, unit, it, &c, &mut st), _ => episode::<TagB>(ctx, unit, it, &c, &mut st) }
        }
        st.report(ctx);
    })
}
