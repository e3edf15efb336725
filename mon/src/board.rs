//! The example board (C41): the program `scc68070` runs generated ROMs, and what it prints is compared with what the
//! reference machine prints on a board with the same memory map.
use crate::bus::*;
use crate::hist::by_name;
use crate::isa68k::{decode, ext_words};
use crate::lockstep::gen_ext;
use crate::model::*;
use crate::rng::*;
use crate::runner::*;
use crate::single::{op_name, opts};
use crate::timing;
use crate::tools::Scratch;
use std::fs;
use std::io::Read;
use std::ops::Range;
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::mpsc::RecvTimeoutError;
use std::time::{Duration, Instant};

const ROM: u32 = 0x40_0000;
const TOP: u32 = 0x50_0000;
const UART: u32 = 0x8000_2019;
const FREE: u32 = ROM + 0x4000;
const CODE: u32 = ROM + 0x400;
const PTR: u32 = 0x2F_0000;
const BUF: u32 = 0x2F_0100;
const FRESH: u32 = 0x2E_8000;
const END: &str = "~END\n";

struct Rom { bytes: Vec<u8>, at: u32 }
impl Rom {
    fn put(&mut self, addr: u32, w: u16) {
        let o = (addr - ROM) as usize;
        if self.bytes.len() < o + 2 { self.bytes.resize(o + 2, 0); }
        self.bytes[o] = (w >> 8) as u8;
        self.bytes[o + 1] = w as u8;
    }
    fn emit(&mut self, w: &[u16]) { for x in w { self.put(self.at, *x); self.at += 2; } }
    fn chars(&mut self, s: &str) { for c in s.bytes() { self.emit(&[0x13FC, c as u16, 0x8000, 0x2019]); } }
    fn abs(&mut self, op: &[u16], a: u32) { self.emit(op); self.emit(&[(a >> 16) as u16, a as u16]); }
    /// Goes on with the next piece of the program.
    fn go_on(&mut self) {
        self.abs(&[0x4FF9], FRESH);
        self.abs(&[0x06B9, 0, 0x40], PTR);
        self.abs(&[0x2F39], PTR);
        self.emit(&[0x4E75]);
    }
}

fn interesting(rng: &mut Rng) -> u32 {
    match rng.below(16) {
        0..=3 => 0x8000_2010 + rng.below(14) as u32,
        4 | 5 => UART,
        6 => TOP.wrapping_sub(8).wrapping_add(rng.below(12) as u32),
        7 => 0x8000_2018,
        8 => rng.pick(&[0xFFFF_FFFE, 0xFFFF_FFFC, 0x8000_0000, 0x7FFF_FFFE, 0x8050_0000, 0x80_0000, 0xFF_FFF0, 0x0100_2000]),
        9 => ROM + 2 * rng.below(0x200) as u32,
        10 => ROM + rng.below((TOP - ROM) as u64) as u32,
        11 => ROM - 8 + rng.below(12) as u32,
        12 => rng.below(16) as u32,
        _ => 0x1000 + rng.below(0x2E_0000) as u32,
    }
}

/// What the board holds in its peripheral registers, whatever was written to them.
fn peripherals(b: &mut Bus) { for a in 0x8000_2011..=0x8000_201Bu32 { b.poke8(a, if a == 0x8000_2013 { 0x0E } else { 0 }); } }

struct Program { ffi: bool, rom: Vec<u8>, out: Vec<u8>, steps: u64, shape: u64, printed_by: FxSet<u16>, faults: u64 }

/// Writes a program while the reference machine runs it. None when it went where nothing is specified.
fn compose(rng: &mut Rng, ffi: bool) -> Option<Program> {
    let mut rom = Rom { bytes: vec![], at: CODE };
    let n = rng.pick(&[0x4000u64, 0x8000, 0x1_0000]) as usize;
    while rom.bytes.len() < n { let w = if rng.chance(1, 4) { rng.u16() } else { gen_ext(rng) }; rom.bytes.extend(w.to_be_bytes()); }
    match rng.below(4) { 0 => { rom.bytes.resize((TOP - ROM) as usize, 0); for i in 0..64 { let k = rom.bytes.len() - 1 - i; rom.bytes[k] = rng.u8(); } }, 1 => { rom.bytes.resize((TOP - ROM) as usize, 0x4E); if !ffi { rom.bytes.extend(vec![0x55; rng.below(5000) as usize]); } }, _ => {} }
    let ssp = 0x20_0000 + 2 * rng.below(0x4000) as u32;
    // The start.
    let start = CODE;
    for i in 0..8u16 { rom.emit(&[0x13F8, i, 0x8000, 0x2019]); }
    rom.emit(&[0x33F8, rng.pick(&[0, 2, 4, 6, 8]), 0x8000, 0x2018]);
    rom.abs(&[0x41F9], ROM);
    rom.emit(&[0x43F8, 0, 0x303C, 255, 0x22D8, 0x51C8, 0xFFFC]);
    let chunk0 = FREE + 0x40 * rng.below(64) as u32;
    rom.emit(&[0x207C]); let usp = 0x2A_0000 + 2 * rng.below(0x800) as u32; rom.emit(&[(usp >> 16) as u16, usp as u16, 0x4E60]);
    rom.emit(&[0x23FC, (chunk0 >> 16) as u16, chunk0 as u16]); rom.emit(&[(PTR >> 16) as u16, PTR as u16]);
    rom.abs(&[0x4CF9, 0x7FFF], ROM + 0x1000);
    let regs: Vec<u32> = (0..15).map(|i| if i < 8 { rng.operand() } else { interesting(rng) }).collect();
    rom.emit(&[0x46FC, rng.pick(&[0x2700, 0x2700, 0x2000, 0, 0x0700, 0x8000, 0xA71F, 0x001F])]);
    rom.abs(&[0x4EF9], chunk0);
    // The handlers.
    let mut vectors = [0u32; 256];
    for v in 2..48usize {
        vectors[v] = rom.at;
        let letter = char::from(b'A' + (v % 58) as u8).to_string();
        match v {
            2 | 3 => { rom.emit(&[0x46FC, 0x2700]); rom.chars(&letter); rom.go_on(); },
            46 => { rom.emit(&[0x46FC, 0x2700]); rom.chars(END); rom.emit(&[0x4E72, 0x2700, 0x60FE]); },
            47 => {
                rom.abs(&[0x48F9, 0x7FFF], BUF);
                rom.chars(&letter);
                rom.emit(&[0x13EF, 1, 0x8000, 0x2019]);
                rom.abs(&[0x41F9], BUF);
                match if ffi { 3 } else { rng.below(4) } {
                    0 => rom.emit(&[0x303C, 29, 0x33D8, 0x8000, 0x2018, 0x51C8, 0xFFF8]),
                    1 => rom.emit(&[0x303C, 14, 0x23D8, 0x8000, 0x2016, 0x51C8, 0xFFF8]),
                    _ => rom.emit(&[0x303C, 59, 0x13D8, 0x8000, 0x2019, 0x51C8, 0xFFF8]),
                }
                rom.abs(&[0x4CF9, 0x7FFF], BUF);
                rom.emit(&[0x4E73]);
            },
            4 | 8 | 10 | 11 | 14 => { rom.chars(&letter); rom.emit(&[0x13EF, 5, 0x8000, 0x2019, 0x13EF, 1, 0x8000, 0x2019, 0x46FC, rng.pick(&[0x2700, 0x2700, 0x2000, 0])]); rom.abs(&[0x4EF9], vectors[2] + 4); },
            _ => { rom.chars(&letter); rom.emit(&[0x4E73]); },
        }
    }
    assert!(rom.at < ROM + 0x1000);
    for (i, r) in regs.iter().enumerate() { rom.put(ROM + 0x1000 + 4 * i as u32, (r >> 16) as u16); rom.put(ROM + 0x1002 + 4 * i as u32, *r as u16); }
    vectors[0] = ssp; vectors[1] = start;
    for v in 0..48 { rom.put(ROM + 4 * v as u32, (vectors[v] >> 16) as u16); rom.put(ROM + 4 * v as u32 + 2, vectors[v] as u16); }

    let mut b = Bus::new(0);
    b.fill = Fill::Zero;
    b.split = !ffi;
    b.byte_port = ffi;
    b.holes = vec![(TOP, 0x8000_2010, true, true), (0x8000_201A, 0x8000_201B, false, true), (0x8000_201C, 0xFFFF_FFFF, true, true)];
    for (i, w) in rom.bytes.chunks(2).enumerate().take((TOP - ROM) as usize / 2) { let a = ROM + 2 * i as u32; let x = u16::from_be_bytes([w[0], *w.get(1).unwrap_or(&0)]); if x != 0 { b.poke16(a, x); } }
    peripherals(&mut b);
    let mut m = Model::new(Fmt::Scc, &timing::SCC68070, b);
    m.c.pc = start; m.c.ssp = ssp;
    let budget = rng.range(900, 2500);
    let mut touched: FxSet<u32> = Default::default();
    let mut taint: FxSet<u32> = Default::default();
    let mut p = Program { ffi, rom: vec![], out: vec![], steps: 0, shape: 0, printed_by: Default::default(), faults: 0 };
    let mut frame = false;
    let names = by_name();
    loop {
        if p.steps > 12_000 { return None; }
        let pc = m.c.pc;
        let free = |t: &FxSet<u32>, n: u32| (0..n).all(|i| !t.contains(&((pc >> 1) + i)));
        let room = pc & 1 == 0 && (FREE..TOP - 64).contains(&pc) && !m.any_pending() && free(&touched, 6);
        let (c0, pend0, op0) = (m.c, m.pend, m.op);
        let mut tries = 0;
        loop {
            m.bus.mark();
            m.bus.log.clear();
            let mut code: Vec<u16> = vec![];
            if room {
                tries += 1;
                if tries > 400 { return None; }
                if p.steps > budget { code.push(0x4E4E); }
                else if rng.chance(1, 40) { code.push(0x4E4F); }
                else if rng.chance(1, 8) { let a = interesting(rng); code.extend([0x207C | (rng.below(7) as u16) << 9, (a >> 16) as u16, a as u16]); }
                else {
                    let ops = &names[rng.below(names.len() as u64) as usize];
                    let mut op = rng.pick(ops);
                    if op >> 12 == 6 { op = op & 0xFF00 | rng.pick(&[2, 4, 8, 0x10]); }
                    code.push(op);
                    let n = decode(op).map_or(0, |i| ext_words(&i));
                    for _ in 0..n { code.push(gen_ext(rng)); }
                    if n >= 2 && op & 0x3F == 0x39 && rng.chance(3, 4) { let a = interesting(rng); let k = code.len(); code[k - 2] = (a >> 16) as u16; code[k - 1] = a as u16; }
                }
                for (i, w) in code.iter().enumerate() { m.bus.poke16(pc + 2 * i as u32, *w); }
            }
            m.step_self();
            let r = &m.r;
            let fault = matches!(r.vector, Some(2 | 3));
            let reads_taint = m.bus.log.iter().any(|e| !e.write && (0..e.size as u32).any(|i| taint.contains(&e.addr.wrapping_add(i))));
            let mut ok = !(r.unspec || r.halt || !r.failed.is_empty() || !r.partial.is_empty() || r.ext_fault || m.c.stop && pc >= FREE || r.undef_d.is_some() || r.undef_ccr != 0 && !fault
                || fault && (r.loose_a | r.loose_d) != 0 || r.loose_ssp || reads_taint || r.loose.iter().any(|a| (0x8000_2011..=0x8000_201B).contains(a)) || m.pending_list().iter().any(|v| !matches!(v, 2..=14 | 32..=47)) || m.pending_list().len() > 1);
            // Whether a long access reaches the board as one is not specified.
            if ffi { ok &= !m.bus.log.iter().any(|e| e.size == 4 && ((0x8000_200E..0x8000_201C).contains(&e.addr) || (TOP - 4..TOP).contains(&e.addr))); }
            if fault && !r.fetched { ok = ok && !frame; }
            if room && ok && code[0] != 0x4E4E {
                // Nothing the machinery of the program needs is overwritten, and the stack stays in memory.
                ok = m.c.ssp & 1 == 0 && (0x1000..0x2E_F000).contains(&m.c.ssp)
                    && !m.bus.log.iter().any(|e| e.write && (e.addr < 0x400 || (ROM..FREE).contains(&e.addr) || (PTR - 0x100..PTR + 0x400).contains(&e.addr)))
                    && (m.any_pending() || (FREE..TOP - 0x1000).contains(&m.c.pc) && m.c.pc & 1 == 0 || rng.chance(1, 30) && m.c.pc >= TOP)
                    && !(m.c.pc <= pc && m.c.pc + 0x20 > pc && !m.any_pending());
            }
            if ok {
                for (i, w) in code.iter().enumerate() { rom.put(pc + 2 * i as u32, *w); }
                break;
            }
            if !room { if std::env::var("MON_TRACE").is_ok() { eprintln!("fixed step {} at {:08X} op {:04X} {:?}", p.steps, pc, m.r.op, m.r); } return None; }
            m.bus.rollback();
            m.c = c0; m.pend = pend0; m.op = op0;
        }
        // What was written where.
        let was_fault_frame = frame && !m.r.taken.is_empty();
        for e in &m.bus.log {
            for i in 0..e.size as u32 {
                let a = e.addr.wrapping_add(i);
                touched.insert(a >> 1);
                if e.write && e.ok {
                    taint.remove(&a);
                    if a == UART && !(ffi && e.size > 1) { let v = e.val >> (8 * (e.size as u32 - 1 - i)); p.out.push(v as u8); p.printed_by.insert(m.r.op); }
                }
            }
        }
        if was_fault_frame { for i in 0..34 { taint.insert(m.before.ssp.wrapping_add(i)); } }
        for a in &m.r.loose { taint.insert(*a); }
        frame = matches!(m.r.vector, Some(2 | 3));
        if frame { p.faults += 1; }
        peripherals(&mut m.bus);
        p.steps += 1;
        p.shape = mix(p.shape ^ m.r.op as u64 ^ (m.r.vector.unwrap_or(0) as u64) << 16);
        if m.c.stop { break; }
    }
    if rng.chance(1, 3) { while rom.bytes.last() == Some(&0) { rom.bytes.pop(); } }
    p.rom = rom.bytes;
    Some(p)
}

/// Runs the board and reads what it prints, up to the given number of bytes; the board runs for long after that.
fn board(ffi: bool, s: &Scratch, want: usize, to_end: bool) -> (Vec<u8>, Option<i32>, String) {
    let dir = std::env::var("MON_BIN_DIR").expect("MON_BIN_DIR is not set");
    let err = fs::File::create(s.at(".stderr")).expect("stderr");
    let mut c = Command::new(Path::new(&dir).join(if ffi { "scc68070_ffi" } else { "scc68070" })).current_dir(&s.0).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(err).spawn().expect("scc68070");
    let mut o = c.stdout.take().expect("stdout");
    let (tx, rx) = std::sync::mpsc::channel();
    let t = std::thread::spawn(move || {
        let mut chunk = [0u8; 4096];
        while let Ok(n) = o.read(&mut chunk) { if n == 0 || tx.send(chunk[..n].to_vec()).is_err() { break; } }
    });
    let mut got = Vec::new();
    // It is given a time of its own, not of the clock: enough for millions of instructions.
    let spent = |pid: u32| -> u64 { fs::read_to_string(format!("/proc/{pid}/stat")).ok().and_then(|t| { let v: Vec<&str> = t[t.rfind(')')? + 2..].split(' ').collect(); Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?) }).unwrap_or(0) };
    let begin = Instant::now();
    while got.len() < want || to_end {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(v) => got.extend(v),
            Err(RecvTimeoutError::Disconnected) => break,
            Err(RecvTimeoutError::Timeout) => {
                if !to_end && spent(c.id()) >= 200 { break; }
                if begin.elapsed() > Duration::from_secs(600) { let _ = c.kill(); panic!("the board gave no answer"); }
            },
        }
        if got.len() > want + 100_000 { break; }
    }
    let code = if to_end { c.wait().ok().and_then(|x| x.code()) } else { match c.try_wait() { Ok(Some(x)) => x.code(), _ => None } };
    let _ = c.kill();
    let _ = c.wait();
    drop(rx);
    let _ = t.join();
    (got, code, fs::read_to_string(s.at(".stderr")).unwrap_or_default())
}

fn printed(p: &Program) -> String { p.out.iter().map(|b| *b as char).collect() }

fn check(ctx: &mut Ctx, it: u64, p: &Program, s: &Scratch, to_end: bool) -> bool {
    let mut bad = true;
    fs::write(s.at("cpudiag40.rom"), &p.rom).expect("rom");
    let want = printed(p);
    let (got, code, err) = board(p.ffi, s, want.len(), to_end);
    let text = String::from_utf8_lossy(&got).into_owned();
    ctx.eval(p.shape);
    if !text.starts_with(&want) {
        let n = text.chars().zip(want.chars()).take_while(|(a, b)| a == b).count();
        let near = |t: &str| t.chars().skip(n.saturating_sub(4)).take(24).collect::<String>();
        ctx.violation(it, "board output", format!("{}a ROM of {} bytes that runs for {} instructions: character {n} of {} differs: the board prints {:?}, the ROM says {:?}; status {code:?} {:?}", if p.ffi { "C interface: " } else { "" }, p.rom.len(), p.steps, want.chars().count(), near(&text), near(&want), err.lines().next()));
    } else if to_end {
        bad = false;
        // It stops by itself, after a line with the time it took.
        let rest = &text[want.len()..];
        if code != Some(0) || rest.trim().is_empty() || rest.trim().lines().count() != 1 || !rest.trim().ends_with('s') { ctx.violation(it, "board end", format!("the board ends with {code:?} after printing {rest:?}; {:?}", err.lines().next())); }
        ctx.count("runs to the end", 1);
    } else if let Some(c) = code { ctx.violation(it, "board end", format!("the board ends with status {c} long before it has run its instructions: {:?}", err.lines().next())); } else { bad = false; }
    ctx.count("instructions of the ROMs", p.steps);
    ctx.count(if p.ffi { "ROMs run through the C interface" } else { "ROMs run" }, 1);
    ctx.count("characters printed", p.out.len() as u64);
    ctx.count("bus and address errors", p.faults);
    for o in &p.printed_by { ctx.count(&format!("printed by {}", op_name(*o)), 1); }
    ctx.sample(|| format!("a ROM of {} bytes, {} instructions, prints {} characters", p.rom.len(), p.steps, p.out.len()));
    !bad
}

fn roms(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let s = Scratch::new();
    for it in its {
        if ctx.stopping() { break; }
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        match compose(&mut rng, unit % 4 == 3) { Some(p) => if !check(ctx, it, &p, &s, false) { break; }, None => ctx.count("programs given up", 1) }
    }
}

fn to_the_end(ctx: &mut Ctx, unit: u64, _: Range<u64>) {
    let s = Scratch::new();
    ctx.beat(0);
    // Without a ROM there is nothing to run.
    if unit < 2 {
        let (got, code, err) = board(unit == 1, &s, 1, true);
        if code == Some(0) || code.is_none() || !got.is_empty() || err.is_empty() { ctx.violation(0, "board without ROM", format!("without a ROM the board ends with {code:?} and prints {:?}", String::from_utf8_lossy(&got))); }
        return;
    }
    let mut rng = ctx.rng(unit, 0);
    loop { if let Some(p) = compose(&mut rng, unit == 3) { check(ctx, 0, &p, &s, true); break; } }
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let k = if thorough { 20 } else { 1 };
    Some(match p {
        "C41" => (opts("C41", "ROMs run by the board; distinct = ROMs by executed instructions and exceptions", 200), vec![work("roms", 16, 40 * k, roms), work("to_the_end", 4, 1, to_the_end)]),
        _ => return None,
    })
}
