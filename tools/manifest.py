#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = "runtime monitoring: lockstep online checker of every step against an independent reference machine over a recording bus"
EXC = "runtime monitoring: lockstep online checker over generated histories of requests, faults and programs on a fault-injecting recording bus"
T = {
 'C01': LOCK, 'C02': LOCK, 'C03': LOCK, 'C04': LOCK, 'C05': LOCK, 'C06': LOCK, 'C07': LOCK, 'C08': LOCK, 'C09': LOCK + ' (user-mode programs)', 'C10': LOCK,
 'C11': EXC, 'C12': EXC, 'C13': EXC, 'C14': EXC, 'C15': EXC, 'C16': LOCK + ' (all 65536 opcode words)', 'C17': LOCK + ' (bus log)', 'C18': EXC + ' (fault at every access of an instruction)',
 'C19': 'runtime monitoring: differential checker of the four stepping functions on identical histories', 'C20': 'runtime monitoring: differential checker of the run drivers against single steps, with recorded cycle logs',
 'C21': LOCK + ' (cycle counts against an independent transcription of the timing tables)', 'C22': 'runtime monitoring: hostile-guest stress with overflow checks, panic capture and a no-progress watchdog',
 'C23': 'runtime monitoring: assembler calls over the operand space, judged by an independent encoder/decoder and by lockstep execution', 'C24': 'runtime monitoring: assembler calls over valid and invalid operands, judged by an independent legality oracle',
 'C25': 'runtime monitoring: decode calls on a recording bus judged by an independent operand decoder', 'C26': 'runtime monitoring: disassembly of the whole opcode space judged by an independent text reader',
 'C27': 'runtime monitoring: exhaustive execution of the status register views against a bit-level oracle', 'C28': 'runtime monitoring: access histories on slices against a byte-array model, with guard bytes',
 'C29': 'runtime monitoring: differential call histories through the C interface and the Rust API', 'C30': 'sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer runs of C and Rust callers, with layout monitors',
 'C31': 'runtime monitoring: interleaved, threaded, cloned, nested and transplanted cores compared with solo runs; ThreadSanitizer', 'C32': LOCK + ' (tagged custom CPU descriptions)',
 'C33': EXC, 'C34': EXC + ' and host edits between steps', 'C35': 'runtime monitoring: calls of the public value types over their (mostly exhausted) input space against independent oracles',
 'C36': 'runtime monitoring: offline comparison of recorded user-mode state sequences of disturbed and undisturbed runs', 'C37': 'runtime monitoring: generated guest algorithms judged by exact results computed on the host',
 'C38': 'runtime monitoring: runs of the real program on generated files, with an independent reader of its listing', 'C41': 'runtime monitoring: runs of the real program on generated ROMs, its output compared with that of a reference machine with the same memory map', 'C39': 'runtime monitoring: run of the real generator, its output compiled and compared with an independent opcode map',
 'C40': 'runtime monitoring: calls of the helpers (8-bit operands exhausted) against exact integer arithmetic',
}
LEVEL = {'C18': 'fault_enumeration'}
NOTE = json.load(open(os.path.join(root, 'tools', 'notes.json')))
done = set(json.load(open(os.path.join(root, 'tools', 'done.json'))))
checks, na = [], []
for l in open(os.path.join(root, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in done:
        checks.append({'property': p, 'quick_cmd': f'./run.sh {p}', 'thorough_cmd': f'VERIF_TIER=thorough ./run.sh {p}', 'evidence_file': f'evidence/{p}.json',
                       'technique': T[p], 'level': LEVEL.get(p, 'exploration'), 'level_note': NOTE.get(p, NOTE['*'])})
    else:
        na.append({'property': p, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use the public API only', 'source_commits': []}, 'checks': checks, 'not_applicable': na,
     'notes': 'The checks build the crates from /repo by path dependency with nightly-2025-10-03 (the toolchain of /opt/vp/env.sh), offline, into /verif/target.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
