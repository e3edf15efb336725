#!/usr/bin/env python3
"""Development tool: plants many small random changes in copies of /repo (never in /repo itself) and records which checks notice
them. usage: mutate.py WORKDIR SLOTS COUNT SEED [FILE-REGEX]. Nothing registered in MANIFEST.json uses it."""
import os, random, re, shutil, subprocess, sys, json, threading
W, SLOTS, COUNT, SEED = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
FRE = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
V = '/verif'
PROPS = [f'C{i:02}' for i in list(range(1, 34)) + [34, 35, 36, 37, 40] if i not in (29, 30)]
SRC = ['interpreter.rs'] * 8 + ['exception.rs', 'interpreter_fast.rs', 'interpreter_disassembler.rs', 'addressing_modes.rs', 'addressing_modes.rs', 'memory_access.rs', 'utils.rs', 'status_register.rs',
       'instruction.rs', 'instruction.rs', 'assembler.rs', 'assembler.rs', 'disassembler.rs', 'disassembler.rs', 'isa.rs', 'lib.rs', 'cpu_details/mc68000.rs', 'cpu_details/scc68070.rs', 'decoder.rs']
SRC = [s for s in SRC if FRE.search(s)]
rng = random.Random(SEED)
env0 = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='nightly-2025-10-03')

def sub_one(pat, repl):
    def f(line):
        ms = list(re.finditer(pat, line))
        if not ms: return None
        m = rng.choice(ms)
        r = repl(m) if callable(repl) else m.expand(repl)
        return line[:m.start()] + r + line[m.end():]
    return f
def bump(m):
    t = m.group(0)
    if t.startswith('0x'):
        n = int(t.replace('_', ''), 16); return hex(n ^ (1 << rng.randrange(max(1, n.bit_length()))))
    if t.startswith('0b'):
        n = int(t.replace('_', ''), 2); return bin(n ^ (1 << rng.randrange(max(1, n.bit_length()))))
    n = int(t.replace('_', '')); return str(n + rng.choice([1, 1, 2]) if n == 0 or rng.random() < .5 else n - 1)
swap = lambda *xs: (lambda m: rng.choice([x for x in xs if x != m.group(0)]))
OPS = [
    sub_one(r'==|!=', swap('==', '!=')), sub_one(r' (<=|>=|<|>) ', lambda m: rng.choice([' < ', ' <= ', ' > ', ' >= '])), sub_one(r'&&|\|\|', swap('&&', '||')),
    sub_one(r' [+-] ', swap(' + ', ' - ')), sub_one(r' ([&|^]) ', swap(' & ', ' | ', ' ^ ')), sub_one(r'[+\-|&^]=', swap('+=', '-=', '|=', '&=', '^=')), sub_one(r'<<|>>', swap('<<', '>>')),
    sub_one(r'\b(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)\b', bump), sub_one(r'\b(0x[0-9A-Fa-f_]+|0b[01_]+|\d+)\b', bump),
    sub_one(r'\btrue\b|\bfalse\b', swap('true', 'false')), sub_one(r'Size::(Byte|Word|Long)', swap('Size::Byte', 'Size::Word', 'Size::Long')),
    sub_one(r'wrapping_add|wrapping_sub', swap('wrapping_add', 'wrapping_sub')), sub_one(r'as i(8|16) as', lambda m: f'as u{m.group(1)} as'), sub_one(r'as u(8|16) as', lambda m: f'as i{m.group(1)} as'),
    sub_one(r'\brx\b|\bry\b', swap('rx', 'ry')), sub_one(r'\bsrc\b|\bdst\b', swap('src', 'dst')), sub_one(r'!(?=[a-z(])', ''), sub_one(r'(?<=if )(?=[a-z])', '!'),
    sub_one(r'sr\.([xnzvc])\b', lambda m: 'sr.' + rng.choice([x for x in 'xnzvc' if x != m.group(1)])), sub_one(r'\b(usp|ssp)\b', swap('usp', 'ssp')),
    sub_one(r'CPU::[A-Z0-9_]+', lambda m: rng.choice(CPUC)), sub_one(r'CPU::[A-Z0-9_]+', lambda m: rng.choice(CPUC)), sub_one(r'is_(drd|ard|dard|ariwpr|ariwpo|immediate|byte|word|long)\(', lambda m: 'is_' + rng.choice(['drd', 'ard', 'dard', 'ariwpr', 'ariwpo', 'immediate', 'byte', 'word', 'long']) + '('),
    sub_one(r'Vector::[A-Za-z0-9]+', lambda m: 'Vector::' + rng.choice(['IllegalInstruction', 'Trace', 'ZeroDivide', 'AccessError', 'AddressError', 'PrivilegeViolation', 'Level7Interrupt', 'Level1Interrupt', 'UserInterrupt'])),
    sub_one(r'Direction::[A-Za-z]+', lambda m: 'Direction::' + rng.choice(['DstReg', 'DstEa', 'Left', 'Right', 'RegisterToMemory', 'MemoryToRegister', 'MemoryToMemory', 'RegisterToRegister', 'ExchangeData', 'ExchangeAddress', 'RegisterToUsp'])),
    sub_one(r'AddressingMode::[A-Z][a-z0-9]+(?=\()', lambda m: 'AddressingMode::' + rng.choice(['Drd', 'Ard', 'Ari', 'Ariwpo', 'Ariwpr'])),
    sub_one(r'Isa::[A-Z][a-z]+', lambda m: 'Isa::' + rng.choice(['Nop', 'Move', 'Add', 'Sub', 'Cmp', 'Btst', 'Moveusp', 'Unknown', 'Rte', 'Stop'])),
    lambda l: '' if re.match(r'\s+(?!let|return|const|use|pub|\})[^/].*;\s*$', l) and l.count('(') == l.count(')') else None,
    lambda l: '' if re.match(r'\s+(?!let|return|const|use|pub|\})[^/].*;\s*$', l) and l.count('(') == l.count(')') else None,
]
CPUC = sorted(set(re.findall(r'CPU::[A-Z][A-Z0-9_]+', open('/repo/m68000/src/interpreter.rs').read())) - {'CPU::STACK_FORMAT'})

def function_at(lines, i):
    for k in range(i, -1, -1):
        m = re.match(r'\s*(?:pub(?:\([a-z]+\))? )?(?:const )?fn ([a-z0-9_]+)', lines[k])
        if m: return m.group(1)
    return '?'
def mutant():
    while True:
        f = rng.choice(SRC)
        lines = open('/repo/m68000/src/' + f).read().split('\n')
        i = rng.randrange(len(lines))
        l = lines[i]
        if not l.strip() or l.strip().startswith(('//', '#', 'use ', 'assert!(')) and rng.random() < .9 or 'expect(' in l: continue
        n = rng.choice(OPS)(l)
        if n is None or n == l: continue
        return f, i, l, n, function_at(lines, i)

def expected(f, fn, old, new):
    if f.startswith('cpu_details/'): return ['C21']
    if f == 'interpreter.rs':
        if 'CPU::' in old and [x for x in re.findall(r'CPU::\w+', old)] != re.findall(r'CPU::\w+', new): return ['C21', 'C32']
        n = fn.replace('execute_', '')
        T = {'C01': 'move movea moveq movem movep lea pea exg swap link unlk', 'C02': 'add adda addi addq addx sub suba subi subq subx cmp cmpa cmpi cmpm neg negx clr tst ext', 'C03': 'mulu muls divu divs chk',
             'C04': 'and andi or ori eor eori not btst bchg bclr bset tas scc', 'C05': 'asm asr lsm lsr rom ror roxm roxr asl lsl rol roxl asl_asr', 'C06': 'abcd sbcd nbcd', 'C07': 'bra bcc dbcc jmp bsr jsr rts rtr trap trapv',
             'C10': 'andisr andiccr orisr oriccr eorisr eoriccr movesr movefsr moveccr moveusp reset stop nop', 'C13': 'rte', 'C16': 'unknown_instruction illegal', 'C09': 'check_supervisor'}
        return [p for p, ns in T.items() if n in ns.split()]
    return {'assembler.rs': ['C23'], 'disassembler.rs': ['C26'], 'instruction.rs': ['C25'], 'status_register.rs': ['C27'], 'decoder.rs': ['C16'], 'isa.rs': ['C16'], 'interpreter_disassembler.rs': ['C19']}.get(f, [])

lock = threading.Lock()
out = open(f'{W}/results.jsonl', 'a')
def slot(k):
    d = f'{W}/s{k}'
    if not os.path.exists(d):
        os.makedirs(d + '/root')
        subprocess.run(['git', 'clone', '-q', '/repo', d + '/repo'], check=True)
        shutil.copytree(V + '/mon', d + '/mon')
    subprocess.run(['git', '-C', d + '/repo', 'pull', '-q']); shutil.rmtree(d + '/mon'); shutil.copytree(V + '/mon', d + '/mon')
    shutil.copy(V + '/known-findings.txt', d + '/root/')
    p = d + '/mon/Cargo.toml'; s = open(p).read().replace('/repo/m68000', d + '/repo/m68000').replace('incremental = false', 'incremental = true').replace('codegen-units = 16', 'codegen-units = 64').replace('opt-level = 2', 'opt-level = 1'); open(p, 'w').write(s)
    env = dict(env0, CARGO_TARGET_DIR=d + '/target', VERIF_ROOT=d + '/root', MON_SCALE='4')
    while True:
        with lock:
            global COUNT
            if COUNT <= 0: return
            COUNT -= 1
            f, i, old, new, fn = mutant()
        path = f'{d}/repo/m68000/src/{f}'
        orig = open(path).read(); ls = orig.split('\n')
        if ls[i] != old: continue
        ls[i] = new; open(path, 'w').write('\n'.join(ls))
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--quiet', '-j', '2'], cwd=d + '/mon', env=env, capture_output=True, text=True)
        rec = {'file': f, 'line': i + 1, 'fn': fn, 'old': old.strip(), 'new': new.strip(), 'expected': expected(f, fn, old, new)}
        if r.returncode != 0: rec['result'] = 'build'
        else:
            kills = []
            def run(p, scale):
                try:
                    r = subprocess.run([d + '/target/release/mon', p], env=dict(env, MON_SCALE=str(scale)), capture_output=True, text=True, timeout=200)
                    return r.returncode == 1 and f'VIOLATION property={p}' in r.stdout or r.returncode not in (0, 1, 3)
                except subprocess.TimeoutExpired: return True
            for p in rec['expected'] or PROPS:
                if run(p, 4):
                    kills.append(p)
                    if not rec['expected']: break
            # The full quick volume, where it should have been noticed.
            for p in (rec['expected'] if kills else PROPS):
                if p not in kills and run(p, 100): kills.append(p + '*')
            rec['kills'] = kills
            rec['missing'] = [p for p in rec['expected'] if p not in kills and p + '*' not in kills]
            rec['result'] = 'killed' if kills else 'SURVIVED'
        open(path, 'w').write(orig)
        with lock: out.write(json.dumps(rec) + '\n'); out.flush()
ts = [threading.Thread(target=slot, args=(k,)) for k in range(SLOTS)]
[t.start() for t in ts]; [t.join() for t in ts]
