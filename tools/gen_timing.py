#!/usr/bin/env python3
"""Transcribes the timing tables once into mon/src/timing.rs (committed; not run by any check).

The values were compared with the MC68000 user's manual tables (section 8) when they were transcribed;
for the SCC68070 they are the published table of the crate at the pinned commit.
The file is golden data: the checks compare the crate against it, they never re-read the crate's tables.
"""
import re, random
def parse(fn):
    r={}
    for l in open(fn):
        m=re.match(r"\s*const ([A-Z0-9_]+): usize = (\d+);",l)
        if m: r[m[1]]=int(m[2])
    return r
mc=parse('/repo/m68000/src/cpu_details/mc68000.rs'); sc=parse('/repo/m68000/src/cpu_details/scc68070.rs')
names=[n for n in mc if n!='VECTOR_RESET']
assert set(mc)==set(sc)
def vec(base, reset):
    t=[reset]*256
    for k,v in base.items():
        for i in k: t[i]=v
    return t
R=range
mcv=vec({(2,3):50,(4,7,8,9):34,(5,):38,(6,):40,tuple(R(24,32)):44,tuple(R(32,48)):34},40)
scv=vec({(2,3):158,(4,7,8,9):55,(5,6):64,tuple(R(24,32)):65,tuple(R(32,48)):52},43)
rng=random.Random(68000)
def tag(): return {n:rng.randrange(1<<20,1<<30) for n in ['VECTOR_RESET']+names}
ta=tag(); tb=tag()
tav=[rng.randrange(1<<20,1<<30) for _ in R(256)]; tbv=[rng.randrange(1<<20,1<<30) for _ in R(256)]
o=open('/verif/mon/src/timing.rs','w')
w=o.write
w("// Generated by tools/gen_timing.py. Golden timing tables.\n#![allow(non_snake_case, clippy::all)]\nuse m68000::cpu_details::{CpuDetails, StackFormat};\n\n")
w("pub struct Timing {\n    pub VECTOR_RESET: usize,\n    pub vectors: [usize; 256],\n")
for n in names: w(f"    pub {n}: usize,\n")
w("}\n\n")
def inst(name,t,v):
    w(f"pub static {name}: Timing = Timing {{\n    VECTOR_RESET: {t['VECTOR_RESET']},\n    vectors: {v},\n")
    for n in names: w(f"    {n}: {t[n]},\n")
    w("};\n\n")
inst('MC68000',mc,mcv); inst('SCC68070',sc,scv); inst('TAG_A',ta,tav); inst('TAG_B',tb,tbv)
w("pub const ITEM_NAMES: &[&str] = &["+", ".join(f'"{n}"' for n in ['VECTOR_RESET']+names)+"];\n\n")
w("impl Timing {\n    pub fn item(&self, i: usize) -> usize {\n        match i {\n            0 => self.VECTOR_RESET,\n")
for i,n in enumerate(names): w(f"            {i+1} => self.{n},\n")
w("            _ => unreachable!(),\n        }\n    }\n}\n\n")
for ty,t,sf in (('TagA','TAG_A','MC68000'),('TagB','TAG_B','SCC68070')):
    w(f"/// User-style CPU description whose items are all distinct.\n#[derive(Clone, Copy, Debug, Default)]\npub struct {ty};\nimpl CpuDetails for {ty} {{\n    const STACK_FORMAT: StackFormat = StackFormat::{sf};\n    const VECTOR_RESET: usize = {(ta if t=='TAG_A' else tb)['VECTOR_RESET']};\n    fn vector_execution_time(vector: u8) -> usize {{ {t}.vectors[vector as usize] }}\n")
    for n in names: w(f"    const {n}: usize = {(ta if t=='TAG_A' else tb)[n]};\n")
    w("}\n\n")
o.close()
