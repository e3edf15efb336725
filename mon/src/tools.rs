//! The programs that come with the crate, run as a user runs them: the file disassembler (C38) and the generator of the
//! decoding table (C39). MON_BIN_DIR says where they were built.
use crate::asmapi::operands;
use crate::bus::Bus;
use crate::isa68k::{decode, ext_words};
use crate::lockstep::gen_ext;
use crate::rng::*;
use crate::runner::*;
use crate::single::{op_name, opts};
use crate::text;
use m68000::decoder::DECODER;
use m68000::instruction::Instruction;
use m68000::MemoryAccess;
use std::fs;
use std::ops::Range;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
    pub fn at(&self, n: &str) -> PathBuf { self.0.join(n) }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = fs::remove_dir_all(&self.0); } }

struct Ran { code: Option<i32>, out: String, err: String }

/// Runs a program in the scratch directory, with a limit on its time and on what it writes.
fn run(s: &Scratch, program: &str, args: &[String]) -> Ran {
    let dir = std::env::var("MON_BIN_DIR").expect("MON_BIN_DIR is not set");
    let st = Command::new("sh").arg("-c").arg("ulimit -f 40960; exec timeout -s KILL 60 \"$0\" \"$@\" >.stdout 2>.stderr").arg(Path::new(&dir).join(program)).args(args).current_dir(&s.0).status().expect("sh");
    let read = |n: &str| fs::read(s.at(n)).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let r = Ran { code: st.code(), out: read(".stdout"), err: read(".stderr") };
    assert!(r.code != Some(126) && r.code != Some(127), "{program} cannot be run: {}", r.err);
    r
}

fn words(rng: &mut Rng, n: usize) -> Vec<u16> {
    let style = rng.below(4);
    let mut v = Vec::new();
    while v.len() < n {
        let mut op = rng.u16();
        if style > 0 { for _ in 0..20 { if decode(op).is_some() { break; } op = rng.u16(); } }
        v.push(op);
        if style > 1 { for _ in 0..decode(op).map_or(0, |i| ext_words(&i)) { v.push(gen_ext(rng)); } }
    }
    v
}

fn disassemble(ctx: &mut Ctx, unit: u64, its: Range<u64>) {
    let s = Scratch::new();
    for it in its {
        ctx.beat(it);
        let mut rng = ctx.rng(unit, it);
        let n = match rng.below(40) { 0 => 0, 1 => 1, 2 => 0x8000 + rng.below(400) as usize, _ => rng.below(300) as usize };
        let mut w = words(&mut rng, n);
        w.truncate(n);
        let mut file: Vec<u8> = w.iter().flat_map(|x| x.to_be_bytes()).collect();
        let odd = rng.chance(1, 8);
        if odd { file.push(rng.u8()); }
        // Where it starts: anywhere even.
        let beg = if rng.bool() || w.is_empty() { 0 } else { 2 * rng.below(w.len() as u64 + 2) as usize };
        // The instructions from there, as long as they lie inside the file.
        let mut at = beg;
        let mut starts = Vec::new();
        while at / 2 < w.len() {
            let len = 2 + 2 * decode(w[at / 2]).map_or(0, |i| ext_words(&i)) as usize;
            if at + len > 2 * w.len() { break; }
            starts.push(at);
            at += len;
        }
        // The file, or the range, ends with the last of them; the end of a range may fall inside an instruction.
        let mut end = None;
        if odd || at < 2 * w.len() && rng.bool() { end = Some(at); } else { file.truncate(at.min(2 * w.len())); }
        match rng.below(6) {
            0 if !starts.is_empty() => { let i = rng.below(starts.len() as u64) as usize; let next = starts.get(i + 1).copied().unwrap_or(at); end = Some(rng.range(starts[i] as u64 + 1, next as u64) as usize); starts.truncate(i + 1); },
            1 if end.is_none() && !odd => end = Some(rng.pick(&[file.len(), file.len() + 1, file.len() + 2, 1 << 20, u32::MAX as usize, 1 << 32, i64::MAX as usize, usize::MAX - 1, usize::MAX])),
            2 if beg > 0 => { end = Some(rng.below(beg as u64 + 1) as usize); starts.clear(); },
            _ => {},
        }
        let name = rng.pick(&["code.bin", "a file", "-x"]);
        fs::write(s.at(name), &file).expect("write");
        let mut opt: Vec<Vec<String>> = Vec::new();
        if beg != 0 || rng.chance(1, 4) { opt.push(vec!["-b".into(), beg.to_string()]); }
        if let Some(e) = end { opt.push(vec!["-e".into(), e.to_string()]); }
        // Where it writes: a new file, an older longer one, or, without one that can be opened, the standard output.
        let to = rng.below(5);
        let out = s.at("listing.txt");
        let _ = fs::remove_file(&out);
        match to {
            0 => opt.push(vec!["-o".into(), "listing.txt".into()]),
            1 => { fs::write(&out, vec![b'x'; 60_000]).expect("write"); opt.push(vec!["-o".into(), "listing.txt".into()]); },
            2 => opt.push(vec!["-o".into(), rng.pick(&["no such directory/listing.txt", ".", ""]).into()]),
            _ => {},
        }
        for i in (1..opt.len()).rev() { let j = rng.below(i as u64 + 1) as usize; opt.swap(i, j); }
        let args: Vec<String> = [name.to_string()].into_iter().chain(opt.into_iter().flatten()).collect();
        let r = run(&s, "disassemble", &args);
        let _ = fs::remove_file(s.at(name));
        let show = || { let mut h = file.clone(); h.truncate(120); format!("disassemble {args:?} on the {} bytes {h:02X?}", file.len()) };
        if r.code != Some(0) { ctx.violation(it, "disassemble status", format!("{} ends with {:?}: {}", show(), r.code, r.err.lines().next().unwrap_or(""))); continue; }
        let listing = fs::read_to_string(&out).ok();
        let text = if to < 2 {
            if !r.out.is_empty() || listing.is_none() { ctx.violation(it, "disassemble output", format!("{} writes {:?} to the standard output, and the file {}", show(), r.out.lines().next(), if listing.is_some() { "too" } else { "not" })); continue; }
            listing.unwrap()
        } else { r.out };
        ctx.eval(hash(&[starts.len() as u64, beg as u64, file.len() as u64, to]));
        // One line for each instruction, in order: address, text.
        let lines: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
        let mut b = Bus::new(0);
        for (i, x) in w.iter().enumerate() { b.poke16(2 * i as u32, *x); }
        for (i, a) in starts.iter().enumerate() {
            let Some(l) = lines.get(i) else { ctx.violation(it, "disassemble missing", format!("{}: nothing for the instruction at {a:#X}; {} lines instead of {}", show(), lines.len(), starts.len())); break };
            let (x, y) = l.trim().split_once(char::is_whitespace).unwrap_or((l, ""));
            let addr = x.trim_end_matches(':').trim_start_matches("0x").trim_start_matches("0X").trim_start_matches('$');
            let op = w[a / 2];
            let mut bus = b.iter_u16(*a as u32);
            let want = Instruction::from_memory(&mut bus).map(|i| i.disassemble()).unwrap_or_default();
            let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            let ins = decode(op);
            let n = ins.map_or(0, |i| ext_words(&i)) as usize;
            let mut ext = w[a / 2 + 1..a / 2 + 1 + n].to_vec();
            ext.resize(5, 0);
            let says = match ins { Some(i) => text::check(y, &text::expect(&i, &operands(op, &ext, *a as u32).unwrap(), &ext, *a as u32)), None => Ok(()) };
            if u64::from_str_radix(addr, 16) != Ok(*a as u64) || squeeze(y) != squeeze(&want) || says.is_err() {
                ctx.violation(it, "disassemble line", format!("{}: line {i} is {l:?}; at {a:#X} stands {op:04X} {:04X?}, which is {want:?} {says:?}", show(), &ext[..n]));
                break;
            }
        }
        if lines.len() > starts.len() { ctx.violation(it, "disassemble extra", format!("{}: {:?} after the last instruction", show(), lines[starts.len()])); }
        ctx.count("instructions listed", starts.len() as u64);
        ctx.count(["new file", "older file", "output that cannot be opened", "standard output", "standard output"][to as usize], 1);
        ctx.sample(|| format!("{}: {} lines, the last {:?}", show(), lines.len(), lines.last()));
    }
}

fn hash(v: &[u64]) -> u64 { v.iter().fold(0, |h, x| mix(h ^ x)) }

/// Calls the disassembler cannot serve: it must say so and fail.
fn wrong_calls(ctx: &mut Ctx, _: u64, _: Range<u64>) {
    let s = Scratch::new();
    fs::write(s.at("code.bin"), [0x4E, 0x71, 0x4E, 0x75]).expect("write");
    let cases: [&[&str]; 9] = [&[], &["code.bin", "-b", "0", "-e", "4", "-o", "o", "x"], &["missing.bin"], &["code.bin", "-q"], &["code.bin", "-b"], &["code.bin", "-e"], &["code.bin", "-o"], &["code.bin", "-b", "zero"], &["code.bin", "-e", "-2"]];
    for c in cases {
        let args: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        let r = run(&s, "disassemble", &args);
        ctx.eval(hash(&[99, c.len() as u64]));
        let listed = r.out.contains("NOP");
        if r.code == Some(0) || r.code.is_none() || listed || r.out.is_empty() && r.err.is_empty() { ctx.violation(0, "disassemble wrong call", format!("disassemble {c:?} ends with {:?}, says {:?} {:?}", r.code, r.out.lines().next(), r.err.lines().next())); }
        ctx.count("wrong calls", 1);
    }
}

/// The generated source, compiled with the toolchain of the check, holds the decoding table.
fn table(ctx: &mut Ctx, unit: u64, _: Range<u64>) {
    let s = Scratch::new();
    if unit == 1 { fs::write(s.at("decoder.rs"), "an older, longer file\n".repeat(100_000)).expect("write"); }
    let r = run(&s, "decoder", &[]);
    if r.code != Some(0) { ctx.violation(0, "generator status", format!("the generator ends with {:?}: {}", r.code, r.err.lines().next().unwrap_or(""))); return; }
    let text = fs::read_to_string(s.at("decoder.rs")).unwrap_or_default();
    // The names of the crate, so that the source means the same as in the crate.
    let mut names: Vec<String> = DECODER.iter().map(|i| format!("{i:?}")).collect();
    names.sort();
    names.dedup();
    let main = format!("#![allow(dead_code)]\nmod isa {{ #[derive(Clone, Copy, Debug)] pub enum Isa {{ {} }} }}\nmod decoder;\nfn main() {{ for x in decoder::DECODER.iter() {{ println!(\"{{x:?}}\"); }} }}\n", names.join(", "));
    fs::write(s.at("main.rs"), main).expect("write");
    let c = Command::new("rustc").args(["--edition", "2021", "-o", "table", "main.rs"]).current_dir(&s.0).output().expect("rustc");
    if !c.status.success() {
        let e = String::from_utf8_lossy(&c.stderr).into_owned();
        assert!(e.contains("error"), "rustc: {e}");
        ctx.violation(0, "generator source", format!("what the generator wrote ({} bytes) does not compile: {}", text.len(), e.lines().find(|l| l.contains("error")).unwrap_or("")));
        return;
    }
    let t = Command::new(s.at("table")).output().expect("table");
    let out = String::from_utf8_lossy(&t.stdout).into_owned();
    let got: Vec<&str> = out.lines().collect();
    if got.len() != 65536 { ctx.violation(0, "generator length", format!("the generated table has {} entries", got.len())); return; }
    for op in 0..=0xFFFFu16 {
        let g = got[op as usize];
        ctx.eval(op as u64);
        if !g.eq_ignore_ascii_case(op_name(op)) || g != format!("{:?}", DECODER[op as usize]) { ctx.violation(0, "generator entry", format!("the generated table says {g} for {op:#06X}; the map says {}, the table of the crate {:?}", op_name(op), DECODER[op as usize])); }
    }
    ctx.count("entries", 65536);
    ctx.sample(|| format!("{} bytes, entry 0x4E71 is {}", text.len(), got[0x4E71]));
}

pub fn property(p: &str, thorough: bool) -> Option<(Options, Vec<Work>)> {
    let k = if thorough { 25 } else { 1 };
    Some(match p {
        "C38" => (opts("C38", "listings of generated files; distinct = listings by number of instructions, start, length and output", 500), vec![work("disassemble", 16, 200 * k, disassemble), work("wrong_calls", 1, 1, wrong_calls)]),
        "C39" => (opts("C39", "entries of the generated table; distinct = opcodes", 65_536), vec![work("table", 2, 1, table)]),
        _ => return None,
    })
}
