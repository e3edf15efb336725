//! Recording, fault-injecting memory covering the whole 32-bit address space.
//!
//! Content is a pure function of the seed plus an overlay of written words, so the device under test and the
//! reference model each own an identical copy at no cost. Every access is logged.
use crate::rng::mix;
use m68000::MemoryAccess;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517c_c1b7_2722_0a95); } }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95); self.0 ^= self.0 >> 29; }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ev { pub write: bool, pub size: u8, pub addr: u32, pub val: u32, pub ok: bool }

#[derive(Clone, Debug)]
pub enum Fill { Random, Zero, Bcd, Edge, Near(u32) }

#[derive(Clone)]
pub struct Bus {
    pub seed: u64,
    pub fill: Fill,
    over: FxMap<u32, u16>,
    pub log: Vec<Ev>,
    pub logging: bool,
    /// Refused byte ranges: (first, last, refuse reads, refuse writes).
    pub holes: Vec<(u32, u32, bool, bool)>,
    pub resets: u32,
    /// Word or long accesses made at an odd address.
    pub odd: u32,
    /// When set, long accesses go through two word accesses, like the default trait methods.
    pub split: bool,
    pub accesses: u64,
    /// Old overlay entries of written words, newest last, while journalling.
    journal: Vec<(u32, Option<u16>)>,
    pub journalling: bool,
    /// Accesses left before the bus gives up (panics with FUEL), to turn endless loops into a logical verdict.
    pub fuel: u64,
    /// The port of the example board that answers to byte accesses only; wider writes that begin in it go nowhere.
    pub byte_port: bool,
}
pub const FUEL: &str = "bus fuel exhausted";

impl Bus {
    pub fn new(seed: u64) -> Self {
        Bus { seed, fill: Fill::Random, over: Default::default(), log: Vec::new(), logging: true, holes: Vec::new(), resets: 0, odd: 0, split: false, accesses: 0, journal: Vec::new(), journalling: false, fuel: u64::MAX, byte_port: false }
    }
    pub fn reset_to(&mut self, seed: u64) {
        self.seed = seed; self.fill = Fill::Random; self.over.clear(); self.log.clear(); self.holes.clear(); self.resets = 0; self.odd = 0; self.split = false; self.journal.clear();
    }
    fn base(&self, w: u32) -> u16 {
        match self.fill {
            Fill::Zero => 0,
            Fill::Random => {
                let h = mix(self.seed ^ (w as u64) << 1);
                const T: [u16; 8] = [0, 0xFFFF, 0x8000, 0x7FFF, 1, 0x00FF, 0x0080, 0x7F80];
                if h & 7 == 0 { T[(h >> 3) as usize & 7] } else { (h >> 16) as u16 }
            },
            Fill::Edge => {
                let h = mix(self.seed ^ (w as u64) << 1);
                const T: [u16; 16] = [0, 0xFFFF, 0x8000, 0x7FFF, 1, 0x00FF, 0x0080, 0x7F80, 0x8001, 0xFFFE, 0x0002, 0x0100, 0xFF00, 0x8080, 0x0101, 0xFF80];
                let t = T[(h >> 3) as usize & 15];
                match h & 7 { 0 => (h >> 16) as u16, 1 => t.wrapping_add((h >> 20) as u16 & 7).wrapping_sub(3), _ => t }
            },
            // Words and longs equal or close to a given value, or its opposite.
            Fill::Near(v) => {
                let h = mix(self.seed ^ (w as u64) << 1);
                let half = if (w as u64 ^ self.seed) & 1 == 0 { (v >> 16) as u16 } else { v as u16 };
                match h & 15 { 0 => (h >> 16) as u16, 1 => !half, 2 => half.wrapping_neg(), 3 => half.wrapping_add(1), 4 => half.wrapping_sub(1), 5 => v as u16, _ => half }
            },
            Fill::Bcd => {
                let h = mix(self.seed ^ (w as u64) << 1);
                let d = |n: u64| ((h >> n) & 0xFFFF) % 10;
                (d(0) | d(8) << 4 | d(24) << 8 | d(40) << 12) as u16
            },
        }
    }
    fn w(&self, addr: u32) -> u16 {
        let k = addr >> 1;
        match self.over.get(&k) { Some(v) => *v, None => self.base(k) }
    }
    pub fn peek8(&self, addr: u32) -> u8 { let w = self.w(addr); if addr & 1 == 0 { (w >> 8) as u8 } else { w as u8 } }
    pub fn peek16(&self, addr: u32) -> u16 { (self.peek8(addr) as u16) << 8 | self.peek8(addr.wrapping_add(1)) as u16 }
    pub fn peek32(&self, addr: u32) -> u32 { (self.peek16(addr) as u32) << 16 | self.peek16(addr.wrapping_add(2)) as u32 }
    pub fn poke8(&mut self, addr: u32, v: u8) {
        let w = self.w(addr);
        let n = if addr & 1 == 0 { w & 0x00FF | (v as u16) << 8 } else { w & 0xFF00 | v as u16 };
        self.put(addr >> 1, n);
    }
    fn put(&mut self, k: u32, v: u16) {
        let old = self.over.insert(k, v);
        if self.journalling { self.journal.push((k, old)); }
    }
    pub fn mark(&mut self) { self.journal.clear(); self.journalling = true; }
    /// Undoes every write since the mark.
    pub fn rollback(&mut self) {
        while let Some((k, old)) = self.journal.pop() {
            match old { Some(v) => { self.over.insert(k, v); }, None => { self.over.remove(&k); } }
        }
    }
    pub fn poke16(&mut self, addr: u32, v: u16) {
        if addr & 1 == 0 { self.put(addr >> 1, v); } else { self.poke8(addr, (v >> 8) as u8); self.poke8(addr.wrapping_add(1), v as u8); }
    }
    pub fn poke32(&mut self, addr: u32, v: u32) { self.poke16(addr, (v >> 16) as u16); self.poke16(addr.wrapping_add(2), v as u16); }
    /// Words that were ever written.
    pub fn overlay(&self) -> &FxMap<u32, u16> { &self.over }
    /// True when both memories hold the same bytes.
    pub fn same_content(&self, o: &Bus) -> Option<u32> {
        for (k, v) in &self.over { if o.w(*k << 1) != *v { return Some(*k << 1); } }
        for (k, v) in &o.over { if self.w(*k << 1) != *v { return Some(*k << 1); } }
        None
    }
    pub fn copy_content(&mut self, o: &Bus) { self.over.clone_from(&o.over); }

    pub fn refused(&self, addr: u32, size: u32, write: bool) -> bool {
        if self.holes.is_empty() { return false; }
        if self.byte_port && size > 1 && (0x8000_2010..=0x8000_201C).contains(&addr) { return !(write && (0x8000_2011..=0x8000_2019).contains(&addr)); }
        for i in 0..size {
            let a = addr.wrapping_add(i);
            for &(lo, hi, r, w) in &self.holes {
                if a >= lo && a <= hi && (if write { w } else { r }) { return true; }
            }
        }
        false
    }
    fn note(&mut self, write: bool, size: u8, addr: u32, val: u32, ok: bool) {
        self.accesses += 1;
        if self.accesses > self.fuel { panic!("{}", FUEL); }
        if size > 1 && addr & 1 != 0 { self.odd += 1; }
        if self.logging { self.log.push(Ev { write, size, addr, val, ok }); }
    }
    pub fn r8(&mut self, addr: u32) -> Option<u8> {
        if self.refused(addr, 1, false) { self.note(false, 1, addr, 0, false); return None; }
        let v = self.peek8(addr); self.note(false, 1, addr, v as u32, true); Some(v)
    }
    pub fn r16(&mut self, addr: u32) -> Option<u16> {
        if self.refused(addr, 2, false) { self.note(false, 2, addr, 0, false); return None; }
        let v = self.peek16(addr); self.note(false, 2, addr, v as u32, true); Some(v)
    }
    pub fn r32(&mut self, addr: u32) -> Option<u32> {
        if self.split { return Some((self.r16(addr)? as u32) << 16 | self.r16(addr.wrapping_add(2))? as u32); }
        if self.refused(addr, 4, false) { self.note(false, 4, addr, 0, false); return None; }
        let v = self.peek32(addr); self.note(false, 4, addr, v, true); Some(v)
    }
    pub fn w8(&mut self, addr: u32, v: u8) -> Option<()> {
        if self.refused(addr, 1, true) { self.note(true, 1, addr, v as u32, false); return None; }
        self.poke8(addr, v); self.note(true, 1, addr, v as u32, true); Some(())
    }
    pub fn w16(&mut self, addr: u32, v: u16) -> Option<()> {
        if self.refused(addr, 2, true) { self.note(true, 2, addr, v as u32, false); return None; }
        self.poke16(addr, v); self.note(true, 2, addr, v as u32, true); Some(())
    }
    pub fn w32(&mut self, addr: u32, v: u32) -> Option<()> {
        if self.split { self.w16(addr, (v >> 16) as u16)?; return self.w16(addr.wrapping_add(2), v as u16); }
        if self.refused(addr, 4, true) { self.note(true, 4, addr, v, false); return None; }
        self.poke32(addr, v); self.note(true, 4, addr, v, true); Some(())
    }
}

impl MemoryAccess for Bus {
    fn get_byte(&mut self, addr: u32) -> Option<u8> { self.r8(addr) }
    fn get_word(&mut self, addr: u32) -> Option<u16> { self.r16(addr) }
    fn get_long(&mut self, addr: u32) -> Option<u32> { self.r32(addr) }
    fn set_byte(&mut self, addr: u32, value: u8) -> Option<()> { self.w8(addr, value) }
    fn set_word(&mut self, addr: u32, value: u16) -> Option<()> { self.w16(addr, value) }
    fn set_long(&mut self, addr: u32, value: u32) -> Option<()> { self.w32(addr, value) }
    fn reset_instruction(&mut self) { self.resets += 1; }
}

/// Byte-level view of a log: one entry per byte actually transferred, sorted, so that the way an implementation
/// splits or orders independent transfers does not matter. The relative order of writes to one byte is kept.
pub fn byte_events(log: &[Ev], write: bool, out: &mut Vec<(u32, u8)>) {
    out.clear();
    for e in log {
        if e.write != write || !e.ok { continue; }
        for i in 0..e.size as u32 { out.push((e.addr.wrapping_add(i), (e.val >> (8 * (e.size as u32 - 1 - i))) as u8)); }
    }
    out.sort_by_key(|x| x.0);
}
