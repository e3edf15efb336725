// A C user of the library: every call of the C interface is made from here, through the prototypes and structures of
// the repository's headers.
#include "m68000/m68000-ffi.h"
#include <stdlib.h>
#include <string.h>

// ---------------------------------------------------------------- memory callbacks

// Recording bus of the monitor: returns exception << 32 | data.
extern uint64_t monitor_access(void *bus, int kind, uint32_t addr, uint32_t data);
extern void monitor_reset(void *bus);

#define CANARY 0x5AFEC0DEu
typedef struct { void *bus; uint32_t canary; uint32_t calls; uint32_t noise; uint8_t *ram; uint32_t mask; uint32_t resets; } user_t;

// The members the library must not look at (high-order data bytes, data of refused or written accesses) hold noise.
static uint32_t noise(user_t *u) { u->noise = u->noise * 1664525u + 1013904223u; return u->noise; }
static m68000_memory_result_t result(user_t *u, int kind, uint32_t addr, uint32_t data)
{
    if (u->canary != CANARY) abort();
    u->calls++;
    uint64_t r = monitor_access(u->bus, kind, addr, data);
    uint32_t n = noise(u);
    m68000_memory_result_t m;
    memset(&m, 0xA5, sizeof m);
    m.exception = (uint8_t)(r >> 32);
    // Anything but 0 refuses; the access error of the CPU is always vector 2.
    if (m.exception && (n >> 16 & 3) == 0) { static const uint8_t other[8] = {1, 3, 4, 7, 128, 255, 64, 16}; m.exception = other[n >> 20 & 7]; }
    m.data = (uint32_t)r;
    if (m.exception || kind >= 3) m.data = n;
    else if (kind == 0) m.data |= n & 0xFFFFFF00u;
    else if (kind == 1) m.data |= n & 0xFFFF0000u;
    return m;
}
static m68000_memory_result_t get_byte(uint32_t addr, void *u) { return result(u, 0, addr, 0); }
static m68000_memory_result_t get_word(uint32_t addr, void *u) { return result(u, 1, addr, 0); }
static m68000_memory_result_t get_long(uint32_t addr, void *u) { return result(u, 2, addr, 0); }
static m68000_memory_result_t set_byte(uint32_t addr, uint8_t d, void *u) { return result(u, 3, addr, d); }
static m68000_memory_result_t set_word(uint32_t addr, uint16_t d, void *u) { return result(u, 4, addr, d); }
static m68000_memory_result_t set_long(uint32_t addr, uint32_t d, void *u) { return result(u, 5, addr, d); }
static void reset_line(void *p) { user_t *u = p; if (u->canary != CANARY) abort(); u->calls++; monitor_reset(u->bus); }

m68000_callbacks_t *c_callbacks_new(void *bus, uint32_t seed)
{
    m68000_callbacks_t *c = malloc(sizeof *c);
    user_t *u = calloc(1, sizeof *u);
    u->bus = bus; u->canary = CANARY; u->noise = seed;
    *c = (m68000_callbacks_t) { .get_byte = get_byte, .get_word = get_word, .get_long = get_long, .set_byte = set_byte, .set_word = set_word, .set_long = set_long, .reset_instruction = reset_line, .user_data = u };
    return c;
}
uint32_t c_callbacks_delete(m68000_callbacks_t *c)
{
    user_t *u = c->user_data;
    uint32_t n = u->calls;
    if (u->canary != CANARY || c->get_byte != get_byte || c->set_long != set_long || c->reset_instruction != reset_line) abort();
    free(u);
    free(c);
    return n;
}

// Plain C memory, for the allocation monitor: every address is mapped, modulo the size.
static m68000_memory_result_t ok(uint32_t d) { return (m68000_memory_result_t) { .data = d, .exception = 0 }; }
static m68000_memory_result_t ram_get_byte(uint32_t a, void *p) { user_t *u = p; u->calls++; return ok(u->ram[a & u->mask]); }
static m68000_memory_result_t ram_get_word(uint32_t a, void *p) { user_t *u = p; u->calls++; return ok((uint32_t)u->ram[a & u->mask] << 8 | u->ram[(a + 1) & u->mask]); }
static m68000_memory_result_t ram_get_long(uint32_t a, void *p) { uint32_t h = ram_get_word(a, p).data; return ok(h << 16 | ram_get_word(a + 2, p).data); }
static m68000_memory_result_t ram_set_byte(uint32_t a, uint8_t d, void *p) { user_t *u = p; u->calls++; u->ram[a & u->mask] = d; return ok(0); }
static m68000_memory_result_t ram_set_word(uint32_t a, uint16_t d, void *p) { ram_set_byte(a, d >> 8, p); return ram_set_byte(a + 1, d & 0xFF, p); }
static m68000_memory_result_t ram_set_long(uint32_t a, uint32_t d, void *p) { ram_set_word(a, d >> 16, p); return ram_set_word(a + 2, d & 0xFFFF, p); }
static void ram_reset(void *p) { user_t *u = p; u->resets++; }
m68000_callbacks_t *c_ram_new(const uint8_t *image, uint32_t size)
{
    m68000_callbacks_t *c = malloc(sizeof *c);
    user_t *u = calloc(1, sizeof *u);
    u->ram = malloc(size); u->mask = size - 1; u->canary = CANARY;
    memcpy(u->ram, image, size);
    *c = (m68000_callbacks_t) { ram_get_byte, ram_get_word, ram_get_long, ram_set_byte, ram_set_word, ram_set_long, ram_reset, u };
    return c;
}
uint32_t c_ram_delete(m68000_callbacks_t *c) { user_t *u = c->user_data; uint32_t n = u->calls; free(u->ram); free(u); free(c); return n; }

// ---------------------------------------------------------------- calls

typedef struct { uint64_t cycles; uint32_t pc; uint32_t data; uint32_t exception; } out_t;
// Registers as plain words: d0-d7, a0-a6, usp, ssp, pc, sr.
static void flatten(const m68000_registers_t *r, uint32_t *o)
{
    for (int i = 0; i < 8; i++) o[i] = r->d[i];
    for (int i = 0; i < 7; i++) o[8 + i] = r->a[i];
    o[15] = r->usp; o[16] = r->ssp; o[17] = r->pc;
    o[18] = (uint32_t)r->sr.t << 15 | (uint32_t)r->sr.s << 13 | (uint32_t)r->sr.interrupt_mask << 8 | (uint32_t)r->sr.x << 4 | (uint32_t)r->sr.n << 3 | (uint32_t)r->sr.z << 2 | (uint32_t)r->sr.v << 1 | r->sr.c;
}
static void unflatten(const uint32_t *o, m68000_registers_t *r)
{
    for (int i = 0; i < 8; i++) r->d[i] = o[i];
    for (int i = 0; i < 7; i++) r->a[i] = o[8 + i];
    r->usp = o[15]; r->ssp = o[16]; r->pc = o[17];
    r->sr.t = o[18] >> 15 & 1; r->sr.s = o[18] >> 13 & 1; r->sr.interrupt_mask = o[18] >> 8 & 7;
    r->sr.x = o[18] >> 4 & 1; r->sr.n = o[18] >> 3 & 1; r->sr.z = o[18] >> 2 & 1; r->sr.v = o[18] >> 1 & 1; r->sr.c = o[18] & 1;
}

enum { OP_STEP, OP_STEP_EXC, OP_DIS, OP_DIS_EXC, OP_CYCLE, OP_CYCLE_EXC, OP_LOOP, OP_EXCEPTION, OP_WORD, OP_LONG, OP_PEEK,
       OP_REGS, OP_REGS_MUT, OP_GET_REGS, OP_SET_REGS, OP_SET_BY_POINTER };

#define CPU(K) \
void *c_##K##_new(int noreset) { return noreset ? m68000_##K##_new_no_reset() : m68000_##K##_new(); } \
void c_##K##_delete(void *c) { m68000_##K##_delete(c); } \
void *c_##K##_pointer(void *c, int mut) { return mut ? (void *)m68000_##K##_registers_mut(c) : (void *)m68000_##K##_registers(c); } \
int c_##K##_call(int op, void *p, m68000_callbacks_t *m, uint64_t arg, char *buf, uint64_t len, out_t *o, uint32_t *regs) \
{ \
    m68000_##K##_t *c = p; \
    memset(o, 0, sizeof *o); \
    switch (op) { \
    case OP_STEP: o->cycles = m68000_##K##_interpreter(c, m); break; \
    case OP_STEP_EXC: { m68000_exception_result_t r = m68000_##K##_interpreter_exception(c, m); o->cycles = r.cycles; o->exception = r.exception; break; } \
    case OP_DIS: { m68000_disassembler_result_t r = m68000_##K##_disassembler_interpreter(c, m, buf, len); o->cycles = r.cycles; o->pc = r.pc; break; } \
    case OP_DIS_EXC: { m68000_disassembler_exception_result_t r = m68000_##K##_disassembler_interpreter_exception(c, m, buf, len); o->cycles = r.cycles; o->pc = r.pc; o->exception = r.exception; break; } \
    case OP_CYCLE: o->cycles = m68000_##K##_cycle(c, m, arg); break; \
    case OP_CYCLE_EXC: { m68000_exception_result_t r = m68000_##K##_cycle_until_exception(c, m, arg); o->cycles = r.cycles; o->exception = r.exception; break; } \
    case OP_LOOP: { m68000_exception_result_t r = m68000_##K##_loop_until_exception_stop(c, m); o->cycles = r.cycles; o->exception = r.exception; break; } \
    case OP_EXCEPTION: m68000_##K##_exception(c, (m68000_vector_t)arg); break; \
    case OP_WORD: { m68000_memory_result_t r = m68000_##K##_get_next_word(c, m); o->data = r.data; o->exception = r.exception; break; } \
    case OP_LONG: { m68000_memory_result_t r = m68000_##K##_get_next_long(c, m); o->data = r.data; o->exception = r.exception; break; } \
    case OP_PEEK: { m68000_memory_result_t r = m68000_##K##_peek_next_word(c, m); o->data = r.data; o->exception = r.exception; break; } \
    case OP_REGS: flatten(m68000_##K##_registers(c), regs); break; \
    case OP_REGS_MUT: flatten(m68000_##K##_registers_mut(c), regs); break; \
    case OP_GET_REGS: { m68000_registers_t r = m68000_##K##_get_registers(c); flatten(&r, regs); memset(&r, 0, sizeof r); break; } \
    case OP_SET_REGS: { m68000_registers_t r; unflatten(regs, &r); m68000_##K##_set_registers(c, r); break; } \
    case OP_SET_BY_POINTER: unflatten(regs, m68000_##K##_registers_mut(c)); break; \
    default: return -1; \
    } \
    return 0; \
}
CPU(mc68000)
CPU(scc68070)

// ---------------------------------------------------------------- layout

#include <stddef.h>
#define S(T) sizeof(T), _Alignof(T)
static const uint64_t LAYOUT[] = {
    S(m68000_memory_result_t), offsetof(m68000_memory_result_t, data), offsetof(m68000_memory_result_t, exception),
    S(m68000_exception_result_t), offsetof(m68000_exception_result_t, cycles), offsetof(m68000_exception_result_t, exception),
    S(m68000_disassembler_result_t), offsetof(m68000_disassembler_result_t, cycles), offsetof(m68000_disassembler_result_t, pc),
    S(m68000_disassembler_exception_result_t), offsetof(m68000_disassembler_exception_result_t, cycles), offsetof(m68000_disassembler_exception_result_t, pc), offsetof(m68000_disassembler_exception_result_t, exception),
    S(m68000_callbacks_t), offsetof(m68000_callbacks_t, get_byte), offsetof(m68000_callbacks_t, get_word), offsetof(m68000_callbacks_t, get_long), offsetof(m68000_callbacks_t, set_byte), offsetof(m68000_callbacks_t, set_word),
    offsetof(m68000_callbacks_t, set_long), offsetof(m68000_callbacks_t, reset_instruction), offsetof(m68000_callbacks_t, user_data),
    S(m68000_status_register_t), offsetof(m68000_status_register_t, t), offsetof(m68000_status_register_t, s), offsetof(m68000_status_register_t, interrupt_mask), offsetof(m68000_status_register_t, x), offsetof(m68000_status_register_t, n),
    offsetof(m68000_status_register_t, z), offsetof(m68000_status_register_t, v), offsetof(m68000_status_register_t, c),
    S(m68000_registers_t), offsetof(m68000_registers_t, d), offsetof(m68000_registers_t, a), offsetof(m68000_registers_t, usp), offsetof(m68000_registers_t, ssp), offsetof(m68000_registers_t, sr), offsetof(m68000_registers_t, pc),
    S(m68000_instruction_t), offsetof(m68000_instruction_t, opcode), offsetof(m68000_instruction_t, pc), offsetof(m68000_instruction_t, operands),
    S(m68000_operands_t), S(m68000_addressing_mode_t), S(m68000_brief_extension_word_t), S(m68000_direction_t), S(m68000_size_t), S(m68000_vector_t),
};
uint64_t c_layout(uint64_t i) { return i < sizeof LAYOUT / sizeof *LAYOUT ? LAYOUT[i] : UINT64_MAX; }

static const int64_t ENUMS[] = {
    RegisterToMemory, MemoryToRegister, DstReg, DstEa, Left, Right, RegisterToUsp, UspToRegister, RegisterToRegister, MemoryToMemory, ExchangeData, ExchangeAddress, ExchangeDataAddress,
    Byte, Word, Long,
    ResetSspPc, AccessError, AddressError, IllegalInstruction, ZeroDivide, ChkInstruction, TrapVInstruction, PrivilegeViolation, Trace, LineAEmulator, LineFEmulator, FormatError, UninitializedInterrupt, SpuriousInterrupt,
    Level1Interrupt, Level2Interrupt, Level3Interrupt, Level4Interrupt, Level5Interrupt, Level6Interrupt, Level7Interrupt,
    Trap0Instruction, Trap1Instruction, Trap2Instruction, Trap3Instruction, Trap4Instruction, Trap5Instruction, Trap6Instruction, Trap7Instruction, Trap8Instruction, Trap9Instruction, Trap10Instruction, Trap11Instruction,
    Trap12Instruction, Trap13Instruction, Trap14Instruction, Trap15Instruction,
    Level1OnChipInterrupt, Level2OnChipInterrupt, Level3OnChipInterrupt, Level4OnChipInterrupt, Level5OnChipInterrupt, Level6OnChipInterrupt, Level7OnChipInterrupt, UserInterrupt,
    m68000_status_register_t_DEFAULT,
};
int64_t c_enum(uint64_t i) { return i < sizeof ENUMS / sizeof *ENUMS ? ENUMS[i] : INT64_MIN; }

// ---------------------------------------------------------------- values read back through the header's declarations

static int put_am(const m68000_addressing_mode_t *a, int64_t *o)
{
    o[0] = a->tag; o[1] = o[2] = 0;
    switch (a->tag) {
    case Drd: o[1] = a->drd; break;
    case Ard: o[1] = a->ard; break;
    case Ari: o[1] = a->ari; break;
    case Ariwpo: o[1] = a->ariwpo; break;
    case Ariwpr: o[1] = a->ariwpr; break;
    case Ariwd: o[1] = a->ariwd._0; o[2] = a->ariwd._1; break;
    case Ariwi8: o[1] = a->ariwi8._0; o[2] = a->ariwi8._1._0; break;
    case AbsShort: o[1] = a->abs_short; break;
    case AbsLong: o[1] = a->abs_long; break;
    case Pciwd: o[1] = a->pciwd._0; o[2] = a->pciwd._1; break;
    case Pciwi8: o[1] = a->pciwi8._0; o[2] = a->pciwi8._1._0; break;
    case Immediate: o[1] = a->immediate; break;
    default: o[0] = -1;
    }
    // The tag is reported by name, not by value.
    static const int64_t name[] = { 'D', 'A', 'I', '+', '-', 'd', 'i', 's', 'l', 'p', 'x', '#' };
    static const int tag[] = { Drd, Ard, Ari, Ariwpo, Ariwpr, Ariwd, Ariwi8, AbsShort, AbsLong, Pciwd, Pciwi8, Immediate };
    for (int i = 0; i < 12; i++) if (o[0] == tag[i]) { o[0] = name[i]; break; }
    return 3;
}
#define P(x) (o[n++] = (int64_t)(x))
#define A(x) (n += put_am(&(x), o + n))
int c_instruction(const m68000_instruction_t *ins, int64_t *o)
{
    int n = 0;
    const m68000_operands_t *p = &ins->operands;
    P(ins->opcode); P(ins->pc);
    switch (p->tag) {
    case NoOperands: P(100); break;
    case Immediate_: P(101); P(p->immediate); break;
    case SizeEffectiveAddressImmediate: P(102); P(p->size_effective_address_immediate._0); A(p->size_effective_address_immediate._1); P(p->size_effective_address_immediate._2); break;
    case EffectiveAddressCount: P(103); A(p->effective_address_count._0); P(p->effective_address_count._1); break;
    case EffectiveAddress: P(104); A(p->effective_address); break;
    case SizeEffectiveAddress: P(105); P(p->size_effective_address._0); A(p->size_effective_address._1); break;
    case RegisterEffectiveAddress: P(106); P(p->register_effective_address._0); A(p->register_effective_address._1); break;
    case RegisterDirectionSizeRegisterDisplacement: P(107); P(p->register_direction_size_register_displacement._0); P(p->register_direction_size_register_displacement._1); P(p->register_direction_size_register_displacement._2);
        P(p->register_direction_size_register_displacement._3); P(p->register_direction_size_register_displacement._4); break;
    case SizeRegisterEffectiveAddress: P(108); P(p->size_register_effective_address._0); P(p->size_register_effective_address._1); A(p->size_register_effective_address._2); break;
    case SizeEffectiveAddressEffectiveAddress: P(109); P(p->size_effective_address_effective_address._0); A(p->size_effective_address_effective_address._1); A(p->size_effective_address_effective_address._2); break;
    case RegisterOpmodeRegister: P(110); P(p->register_opmode_register._0); P(p->register_opmode_register._1); P(p->register_opmode_register._2); break;
    case OpmodeRegister: P(111); P(p->opmode_register._0); P(p->opmode_register._1); break;
    case Vector: P(112); P(p->vector); break;
    case RegisterDisplacement: P(113); P(p->register_displacement._0); P(p->register_displacement._1); break;
    case Register: P(114); P(p->register_); break;
    case DirectionRegister: P(115); P(p->direction_register._0); P(p->direction_register._1); break;
    case DirectionSizeEffectiveAddressList: P(116); P(p->direction_size_effective_address_list._0); P(p->direction_size_effective_address_list._1); A(p->direction_size_effective_address_list._2); P(p->direction_size_effective_address_list._3); break;
    case DataSizeEffectiveAddress: P(117); P(p->data_size_effective_address._0); P(p->data_size_effective_address._1); A(p->data_size_effective_address._2); break;
    case ConditionEffectiveAddress: P(118); P(p->condition_effective_address._0); A(p->condition_effective_address._1); break;
    case ConditionRegisterDisplacement: P(119); P(p->condition_register_displacement._0); P(p->condition_register_displacement._1); P(p->condition_register_displacement._2); break;
    case Displacement: P(120); P(p->displacement); break;
    case ConditionDisplacement: P(121); P(p->condition_displacement._0); P(p->condition_displacement._1); break;
    case RegisterData: P(122); P(p->register_data._0); P(p->register_data._1); break;
    case RegisterDirectionSizeEffectiveAddress: P(123); P(p->register_direction_size_effective_address._0); P(p->register_direction_size_effective_address._1); P(p->register_direction_size_effective_address._2); A(p->register_direction_size_effective_address._3); break;
    case RegisterSizeEffectiveAddress: P(124); P(p->register_size_effective_address._0); P(p->register_size_effective_address._1); A(p->register_size_effective_address._2); break;
    case RegisterSizeModeRegister: P(125); P(p->register_size_mode_register._0); P(p->register_size_mode_register._1); P(p->register_size_mode_register._2); P(p->register_size_mode_register._3); break;
    case RegisterSizeRegister: P(126); P(p->register_size_register._0); P(p->register_size_register._1); P(p->register_size_register._2); break;
    case DirectionEffectiveAddress: P(127); P(p->direction_effective_address._0); A(p->direction_effective_address._1); break;
    case RotationDirectionSizeModeRegister: P(128); P(p->rotation_direction_size_mode_register._0); P(p->rotation_direction_size_mode_register._1); P(p->rotation_direction_size_mode_register._2);
        P(p->rotation_direction_size_mode_register._3); P(p->rotation_direction_size_mode_register._4); break;
    default: P(-1);
    }
    return n;
}
void c_status_register(const m68000_status_register_t *s, uint32_t *o)
{
    o[0] = s->t; o[1] = s->s; o[2] = s->interrupt_mask; o[3] = s->x; o[4] = s->n; o[5] = s->z; o[6] = s->v; o[7] = s->c;
}
