// Generated by tools/gen_timing.py. Golden timing tables.
#![allow(non_snake_case, clippy::all)]
use m68000::cpu_details::{CpuDetails, StackFormat};

pub struct Timing {
    pub VECTOR_RESET: usize,
    pub vectors: [usize; 256],
    pub EA_ARI: usize,
    pub EA_ARIWPO: usize,
    pub EA_ARIWPR: usize,
    pub EA_ARIWD: usize,
    pub EA_ARIWI8: usize,
    pub EA_ABSSHORT: usize,
    pub EA_ABSLONG: usize,
    pub EA_PCIWD: usize,
    pub EA_PCIWI8: usize,
    pub EA_IMMEDIATE: usize,
    pub ABCD_REG: usize,
    pub ABCD_MEM: usize,
    pub ADD_REG_BW: usize,
    pub ADD_REG_L: usize,
    pub ADD_REG_L_RDIMM: usize,
    pub ADD_MEM_BW: usize,
    pub ADD_MEM_L: usize,
    pub ADDA_WORD: usize,
    pub ADDA_LONG: usize,
    pub ADDA_LONG_RDIMM: usize,
    pub ADDI_REG_BW: usize,
    pub ADDI_REG_L: usize,
    pub ADDI_MEM_BW: usize,
    pub ADDI_MEM_L: usize,
    pub ADDQ_REG_BW: usize,
    pub ADDQ_REG_L: usize,
    pub ADDQ_MEM_BW: usize,
    pub ADDQ_MEM_L: usize,
    pub ADDX_REG_BW: usize,
    pub ADDX_REG_L: usize,
    pub ADDX_MEM_BW: usize,
    pub ADDX_MEM_L: usize,
    pub AND_REG_BW: usize,
    pub AND_REG_L: usize,
    pub AND_REG_L_RDIMM: usize,
    pub AND_MEM_BW: usize,
    pub AND_MEM_L: usize,
    pub ANDI_REG_BW: usize,
    pub ANDI_REG_L: usize,
    pub ANDI_MEM_BW: usize,
    pub ANDI_MEM_L: usize,
    pub ANDICCR: usize,
    pub ANDISR: usize,
    pub ASM: usize,
    pub ASR_COUNT: usize,
    pub ASR_BW: usize,
    pub ASR_L: usize,
    pub BCC_BRANCH: usize,
    pub BCC_NO_BRANCH_BYTE: usize,
    pub BCC_NO_BRANCH_WORD: usize,
    pub BCHG_DYN_REG: usize,
    pub BCHG_DYN_MEM: usize,
    pub BCHG_STA_REG: usize,
    pub BCHG_STA_MEM: usize,
    pub BCLR_DYN_REG: usize,
    pub BCLR_DYN_MEM: usize,
    pub BCLR_STA_REG: usize,
    pub BCLR_STA_MEM: usize,
    pub BRA_BYTE: usize,
    pub BRA_WORD: usize,
    pub BSET_DYN_REG: usize,
    pub BSET_DYN_MEM: usize,
    pub BSET_STA_REG: usize,
    pub BSET_STA_MEM: usize,
    pub BSR_BYTE: usize,
    pub BSR_WORD: usize,
    pub BTST_DYN_REG: usize,
    pub BTST_DYN_MEM: usize,
    pub BTST_STA_REG: usize,
    pub BTST_STA_MEM: usize,
    pub CHK_NO_TRAP: usize,
    pub CLR_REG_BW: usize,
    pub CLR_REG_L: usize,
    pub CLR_MEM_BW: usize,
    pub CLR_MEM_L: usize,
    pub CMP_BW: usize,
    pub CMP_L: usize,
    pub CMPA: usize,
    pub CMPI_REG_BW: usize,
    pub CMPI_REG_L: usize,
    pub CMPI_MEM_BW: usize,
    pub CMPI_MEM_L: usize,
    pub CMPM_BW: usize,
    pub CMPM_L: usize,
    pub DBCC_TRUE: usize,
    pub DBCC_FALSE_BRANCH: usize,
    pub DBCC_FALSE_NO_BRANCH: usize,
    pub DIVS: usize,
    pub DIVU: usize,
    pub EOR_REG_BW: usize,
    pub EOR_REG_L: usize,
    pub EOR_MEM_BW: usize,
    pub EOR_MEM_L: usize,
    pub EORI_REG_BW: usize,
    pub EORI_REG_L: usize,
    pub EORI_MEM_BW: usize,
    pub EORI_MEM_L: usize,
    pub EORICCR: usize,
    pub EORISR: usize,
    pub EXG: usize,
    pub EXT: usize,
    pub JMP_ARI: usize,
    pub JMP_ARIWD: usize,
    pub JMP_ARIWI8: usize,
    pub JMP_ABSSHORT: usize,
    pub JMP_ABSLONG: usize,
    pub JMP_PCIWD: usize,
    pub JMP_PCIWI8: usize,
    pub JSR_ARI: usize,
    pub JSR_ARIWD: usize,
    pub JSR_ARIWI8: usize,
    pub JSR_ABSSHORT: usize,
    pub JSR_ABSLONG: usize,
    pub JSR_PCIWD: usize,
    pub JSR_PCIWI8: usize,
    pub LEA_ARI: usize,
    pub LEA_ARIWD: usize,
    pub LEA_ARIWI8: usize,
    pub LEA_ABSSHORT: usize,
    pub LEA_ABSLONG: usize,
    pub LEA_PCIWD: usize,
    pub LEA_PCIWI8: usize,
    pub LINK: usize,
    pub LSM: usize,
    pub LSR_COUNT: usize,
    pub LSR_BW: usize,
    pub LSR_L: usize,
    pub MOVE_DST_ARIWPR: usize,
    pub MOVE_OTHER: usize,
    pub MOVEA: usize,
    pub MOVECCR: usize,
    pub MOVEFSR_REG: usize,
    pub MOVEFSR_MEM: usize,
    pub MOVESR: usize,
    pub MOVEUSP: usize,
    pub MOVEM_WORD: usize,
    pub MOVEM_LONG: usize,
    pub MOVEM_MTR: usize,
    pub MOVEM_ARI: usize,
    pub MOVEM_ARIWPO: usize,
    pub MOVEM_ARIWPR: usize,
    pub MOVEM_ARIWD: usize,
    pub MOVEM_ARIWI8: usize,
    pub MOVEM_ABSSHORT: usize,
    pub MOVEM_ABSLONG: usize,
    pub MOVEM_PCIWD: usize,
    pub MOVEM_PCIWI8: usize,
    pub MOVEP_RTM_WORD: usize,
    pub MOVEP_RTM_LONG: usize,
    pub MOVEP_MTR_WORD: usize,
    pub MOVEP_MTR_LONG: usize,
    pub MOVEQ: usize,
    pub MULS: usize,
    pub MULU: usize,
    pub NBCD_REG: usize,
    pub NBCD_MEM: usize,
    pub NEG_REG_BW: usize,
    pub NEG_REG_L: usize,
    pub NEG_MEM_BW: usize,
    pub NEG_MEM_L: usize,
    pub NEGX_REG_BW: usize,
    pub NEGX_REG_L: usize,
    pub NEGX_MEM_BW: usize,
    pub NEGX_MEM_L: usize,
    pub NOP: usize,
    pub NOT_REG_BW: usize,
    pub NOT_REG_L: usize,
    pub NOT_MEM_BW: usize,
    pub NOT_MEM_L: usize,
    pub OR_REG_BW: usize,
    pub OR_REG_L: usize,
    pub OR_REG_L_RDIMM: usize,
    pub OR_MEM_BW: usize,
    pub OR_MEM_L: usize,
    pub ORI_REG_BW: usize,
    pub ORI_REG_L: usize,
    pub ORI_MEM_BW: usize,
    pub ORI_MEM_L: usize,
    pub ORICCR: usize,
    pub ORISR: usize,
    pub PEA_ARI: usize,
    pub PEA_ARIWD: usize,
    pub PEA_ARIWI8: usize,
    pub PEA_ABSSHORT: usize,
    pub PEA_ABSLONG: usize,
    pub PEA_PCIWD: usize,
    pub PEA_PCIWI8: usize,
    pub RESET: usize,
    pub ROM: usize,
    pub ROR_COUNT: usize,
    pub ROR_BW: usize,
    pub ROR_L: usize,
    pub ROXM: usize,
    pub ROXR_COUNT: usize,
    pub ROXR_BW: usize,
    pub ROXR_L: usize,
    pub RTE: usize,
    pub RTR: usize,
    pub RTS: usize,
    pub SBCD_REG: usize,
    pub SBCD_MEM: usize,
    pub SCC_REG_FALSE: usize,
    pub SCC_REG_TRUE: usize,
    pub SCC_MEM_FALSE: usize,
    pub SCC_MEM_TRUE: usize,
    pub STOP: usize,
    pub SUB_REG_BW: usize,
    pub SUB_REG_L: usize,
    pub SUB_REG_L_RDIMM: usize,
    pub SUB_MEM_BW: usize,
    pub SUB_MEM_L: usize,
    pub SUBA_WORD: usize,
    pub SUBA_LONG: usize,
    pub SUBA_LONG_RDIMM: usize,
    pub SUBI_REG_BW: usize,
    pub SUBI_REG_L: usize,
    pub SUBI_MEM_BW: usize,
    pub SUBI_MEM_L: usize,
    pub SUBQ_DREG_BW: usize,
    pub SUBQ_AREG_BW: usize,
    pub SUBQ_REG_L: usize,
    pub SUBQ_MEM_BW: usize,
    pub SUBQ_MEM_L: usize,
    pub SUBX_REG_BW: usize,
    pub SUBX_REG_L: usize,
    pub SUBX_MEM_BW: usize,
    pub SUBX_MEM_L: usize,
    pub SWAP: usize,
    pub TAS_REG: usize,
    pub TAS_MEM: usize,
    pub TRAPV_NO_TRAP: usize,
    pub TST_REG_BW: usize,
    pub TST_REG_L: usize,
    pub TST_MEM_BW: usize,
    pub TST_MEM_L: usize,
    pub UNLK: usize,
}

pub static MC68000: Timing = Timing {
    VECTOR_RESET: 40,
    vectors: [40, 40, 50, 50, 34, 38, 40, 34, 34, 34, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 44, 44, 44, 44, 44, 44, 44, 44, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 34, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40, 40],
    EA_ARI: 4,
    EA_ARIWPO: 4,
    EA_ARIWPR: 6,
    EA_ARIWD: 8,
    EA_ARIWI8: 10,
    EA_ABSSHORT: 8,
    EA_ABSLONG: 12,
    EA_PCIWD: 8,
    EA_PCIWI8: 10,
    EA_IMMEDIATE: 4,
    ABCD_REG: 6,
    ABCD_MEM: 18,
    ADD_REG_BW: 4,
    ADD_REG_L: 6,
    ADD_REG_L_RDIMM: 8,
    ADD_MEM_BW: 8,
    ADD_MEM_L: 12,
    ADDA_WORD: 8,
    ADDA_LONG: 6,
    ADDA_LONG_RDIMM: 8,
    ADDI_REG_BW: 8,
    ADDI_REG_L: 16,
    ADDI_MEM_BW: 12,
    ADDI_MEM_L: 20,
    ADDQ_REG_BW: 4,
    ADDQ_REG_L: 8,
    ADDQ_MEM_BW: 8,
    ADDQ_MEM_L: 12,
    ADDX_REG_BW: 4,
    ADDX_REG_L: 8,
    ADDX_MEM_BW: 18,
    ADDX_MEM_L: 30,
    AND_REG_BW: 4,
    AND_REG_L: 6,
    AND_REG_L_RDIMM: 8,
    AND_MEM_BW: 8,
    AND_MEM_L: 12,
    ANDI_REG_BW: 8,
    ANDI_REG_L: 14,
    ANDI_MEM_BW: 12,
    ANDI_MEM_L: 20,
    ANDICCR: 20,
    ANDISR: 20,
    ASM: 8,
    ASR_COUNT: 2,
    ASR_BW: 6,
    ASR_L: 8,
    BCC_BRANCH: 10,
    BCC_NO_BRANCH_BYTE: 8,
    BCC_NO_BRANCH_WORD: 12,
    BCHG_DYN_REG: 8,
    BCHG_DYN_MEM: 8,
    BCHG_STA_REG: 12,
    BCHG_STA_MEM: 12,
    BCLR_DYN_REG: 10,
    BCLR_DYN_MEM: 8,
    BCLR_STA_REG: 14,
    BCLR_STA_MEM: 12,
    BRA_BYTE: 10,
    BRA_WORD: 10,
    BSET_DYN_REG: 8,
    BSET_DYN_MEM: 8,
    BSET_STA_REG: 12,
    BSET_STA_MEM: 12,
    BSR_BYTE: 18,
    BSR_WORD: 18,
    BTST_DYN_REG: 6,
    BTST_DYN_MEM: 4,
    BTST_STA_REG: 10,
    BTST_STA_MEM: 8,
    CHK_NO_TRAP: 10,
    CLR_REG_BW: 4,
    CLR_REG_L: 6,
    CLR_MEM_BW: 8,
    CLR_MEM_L: 12,
    CMP_BW: 4,
    CMP_L: 6,
    CMPA: 6,
    CMPI_REG_BW: 8,
    CMPI_REG_L: 14,
    CMPI_MEM_BW: 8,
    CMPI_MEM_L: 12,
    CMPM_BW: 12,
    CMPM_L: 20,
    DBCC_TRUE: 12,
    DBCC_FALSE_BRANCH: 10,
    DBCC_FALSE_NO_BRANCH: 14,
    DIVS: 158,
    DIVU: 140,
    EOR_REG_BW: 4,
    EOR_REG_L: 8,
    EOR_MEM_BW: 8,
    EOR_MEM_L: 12,
    EORI_REG_BW: 8,
    EORI_REG_L: 16,
    EORI_MEM_BW: 12,
    EORI_MEM_L: 20,
    EORICCR: 20,
    EORISR: 20,
    EXG: 6,
    EXT: 4,
    JMP_ARI: 8,
    JMP_ARIWD: 10,
    JMP_ARIWI8: 14,
    JMP_ABSSHORT: 10,
    JMP_ABSLONG: 12,
    JMP_PCIWD: 10,
    JMP_PCIWI8: 14,
    JSR_ARI: 16,
    JSR_ARIWD: 18,
    JSR_ARIWI8: 22,
    JSR_ABSSHORT: 18,
    JSR_ABSLONG: 20,
    JSR_PCIWD: 18,
    JSR_PCIWI8: 22,
    LEA_ARI: 4,
    LEA_ARIWD: 8,
    LEA_ARIWI8: 12,
    LEA_ABSSHORT: 8,
    LEA_ABSLONG: 12,
    LEA_PCIWD: 8,
    LEA_PCIWI8: 12,
    LINK: 16,
    LSM: 8,
    LSR_COUNT: 2,
    LSR_BW: 6,
    LSR_L: 8,
    MOVE_DST_ARIWPR: 2,
    MOVE_OTHER: 4,
    MOVEA: 4,
    MOVECCR: 12,
    MOVEFSR_REG: 6,
    MOVEFSR_MEM: 8,
    MOVESR: 12,
    MOVEUSP: 4,
    MOVEM_WORD: 4,
    MOVEM_LONG: 8,
    MOVEM_MTR: 4,
    MOVEM_ARI: 8,
    MOVEM_ARIWPO: 8,
    MOVEM_ARIWPR: 8,
    MOVEM_ARIWD: 12,
    MOVEM_ARIWI8: 14,
    MOVEM_ABSSHORT: 12,
    MOVEM_ABSLONG: 16,
    MOVEM_PCIWD: 12,
    MOVEM_PCIWI8: 14,
    MOVEP_RTM_WORD: 16,
    MOVEP_RTM_LONG: 24,
    MOVEP_MTR_WORD: 16,
    MOVEP_MTR_LONG: 24,
    MOVEQ: 4,
    MULS: 70,
    MULU: 70,
    NBCD_REG: 6,
    NBCD_MEM: 8,
    NEG_REG_BW: 4,
    NEG_REG_L: 6,
    NEG_MEM_BW: 8,
    NEG_MEM_L: 12,
    NEGX_REG_BW: 4,
    NEGX_REG_L: 6,
    NEGX_MEM_BW: 8,
    NEGX_MEM_L: 12,
    NOP: 4,
    NOT_REG_BW: 4,
    NOT_REG_L: 6,
    NOT_MEM_BW: 8,
    NOT_MEM_L: 12,
    OR_REG_BW: 4,
    OR_REG_L: 6,
    OR_REG_L_RDIMM: 8,
    OR_MEM_BW: 8,
    OR_MEM_L: 12,
    ORI_REG_BW: 8,
    ORI_REG_L: 16,
    ORI_MEM_BW: 12,
    ORI_MEM_L: 20,
    ORICCR: 20,
    ORISR: 20,
    PEA_ARI: 12,
    PEA_ARIWD: 16,
    PEA_ARIWI8: 20,
    PEA_ABSSHORT: 16,
    PEA_ABSLONG: 20,
    PEA_PCIWD: 16,
    PEA_PCIWI8: 20,
    RESET: 132,
    ROM: 8,
    ROR_COUNT: 2,
    ROR_BW: 6,
    ROR_L: 8,
    ROXM: 8,
    ROXR_COUNT: 2,
    ROXR_BW: 6,
    ROXR_L: 8,
    RTE: 20,
    RTR: 20,
    RTS: 16,
    SBCD_REG: 6,
    SBCD_MEM: 18,
    SCC_REG_FALSE: 4,
    SCC_REG_TRUE: 6,
    SCC_MEM_FALSE: 8,
    SCC_MEM_TRUE: 8,
    STOP: 4,
    SUB_REG_BW: 4,
    SUB_REG_L: 6,
    SUB_REG_L_RDIMM: 8,
    SUB_MEM_BW: 8,
    SUB_MEM_L: 12,
    SUBA_WORD: 8,
    SUBA_LONG: 6,
    SUBA_LONG_RDIMM: 8,
    SUBI_REG_BW: 8,
    SUBI_REG_L: 16,
    SUBI_MEM_BW: 12,
    SUBI_MEM_L: 20,
    SUBQ_DREG_BW: 4,
    SUBQ_AREG_BW: 8,
    SUBQ_REG_L: 8,
    SUBQ_MEM_BW: 8,
    SUBQ_MEM_L: 12,
    SUBX_REG_BW: 4,
    SUBX_REG_L: 8,
    SUBX_MEM_BW: 18,
    SUBX_MEM_L: 30,
    SWAP: 4,
    TAS_REG: 4,
    TAS_MEM: 14,
    TRAPV_NO_TRAP: 4,
    TST_REG_BW: 4,
    TST_REG_L: 4,
    TST_MEM_BW: 4,
    TST_MEM_L: 4,
    UNLK: 12,
};

pub static SCC68070: Timing = Timing {
    VECTOR_RESET: 43,
    vectors: [43, 43, 158, 158, 55, 64, 64, 55, 55, 55, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 65, 65, 65, 65, 65, 65, 65, 65, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 52, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43, 43],
    EA_ARI: 4,
    EA_ARIWPO: 4,
    EA_ARIWPR: 7,
    EA_ARIWD: 11,
    EA_ARIWI8: 14,
    EA_ABSSHORT: 8,
    EA_ABSLONG: 12,
    EA_PCIWD: 11,
    EA_PCIWI8: 14,
    EA_IMMEDIATE: 4,
    ABCD_REG: 10,
    ABCD_MEM: 31,
    ADD_REG_BW: 7,
    ADD_REG_L: 7,
    ADD_REG_L_RDIMM: 7,
    ADD_MEM_BW: 11,
    ADD_MEM_L: 15,
    ADDA_WORD: 7,
    ADDA_LONG: 7,
    ADDA_LONG_RDIMM: 7,
    ADDI_REG_BW: 14,
    ADDI_REG_L: 18,
    ADDI_MEM_BW: 18,
    ADDI_MEM_L: 26,
    ADDQ_REG_BW: 7,
    ADDQ_REG_L: 7,
    ADDQ_MEM_BW: 11,
    ADDQ_MEM_L: 15,
    ADDX_REG_BW: 7,
    ADDX_REG_L: 7,
    ADDX_MEM_BW: 28,
    ADDX_MEM_L: 40,
    AND_REG_BW: 7,
    AND_REG_L: 7,
    AND_REG_L_RDIMM: 7,
    AND_MEM_BW: 11,
    AND_MEM_L: 15,
    ANDI_REG_BW: 14,
    ANDI_REG_L: 18,
    ANDI_MEM_BW: 18,
    ANDI_MEM_L: 26,
    ANDICCR: 14,
    ANDISR: 14,
    ASM: 14,
    ASR_COUNT: 3,
    ASR_BW: 13,
    ASR_L: 13,
    BCC_BRANCH: 13,
    BCC_NO_BRANCH_BYTE: 14,
    BCC_NO_BRANCH_WORD: 14,
    BCHG_DYN_REG: 10,
    BCHG_DYN_MEM: 14,
    BCHG_STA_REG: 17,
    BCHG_STA_MEM: 21,
    BCLR_DYN_REG: 10,
    BCLR_DYN_MEM: 14,
    BCLR_STA_REG: 17,
    BCLR_STA_MEM: 21,
    BRA_BYTE: 13,
    BRA_WORD: 14,
    BSET_DYN_REG: 10,
    BSET_DYN_MEM: 14,
    BSET_STA_REG: 17,
    BSET_STA_MEM: 21,
    BSR_BYTE: 17,
    BSR_WORD: 22,
    BTST_DYN_REG: 7,
    BTST_DYN_MEM: 7,
    BTST_STA_REG: 14,
    BTST_STA_MEM: 14,
    CHK_NO_TRAP: 19,
    CLR_REG_BW: 7,
    CLR_REG_L: 7,
    CLR_MEM_BW: 7,
    CLR_MEM_L: 7,
    CMP_BW: 7,
    CMP_L: 7,
    CMPA: 7,
    CMPI_REG_BW: 14,
    CMPI_REG_L: 18,
    CMPI_MEM_BW: 14,
    CMPI_MEM_L: 18,
    CMPM_BW: 18,
    CMPM_L: 26,
    DBCC_TRUE: 14,
    DBCC_FALSE_BRANCH: 17,
    DBCC_FALSE_NO_BRANCH: 17,
    DIVS: 169,
    DIVU: 130,
    EOR_REG_BW: 7,
    EOR_REG_L: 7,
    EOR_MEM_BW: 11,
    EOR_MEM_L: 15,
    EORI_REG_BW: 14,
    EORI_REG_L: 18,
    EORI_MEM_BW: 18,
    EORI_MEM_L: 26,
    EORICCR: 14,
    EORISR: 14,
    EXG: 13,
    EXT: 7,
    JMP_ARI: 7,
    JMP_ARIWD: 14,
    JMP_ARIWI8: 17,
    JMP_ABSSHORT: 14,
    JMP_ABSLONG: 18,
    JMP_PCIWD: 14,
    JMP_PCIWI8: 17,
    JSR_ARI: 18,
    JSR_ARIWD: 25,
    JSR_ARIWI8: 28,
    JSR_ABSSHORT: 25,
    JSR_ABSLONG: 29,
    JSR_PCIWD: 25,
    JSR_PCIWI8: 28,
    LEA_ARI: 7,
    LEA_ARIWD: 14,
    LEA_ARIWI8: 17,
    LEA_ABSSHORT: 14,
    LEA_ABSLONG: 18,
    LEA_PCIWD: 14,
    LEA_PCIWI8: 17,
    LINK: 25,
    LSM: 14,
    LSR_COUNT: 3,
    LSR_BW: 13,
    LSR_L: 13,
    MOVE_DST_ARIWPR: 7,
    MOVE_OTHER: 7,
    MOVEA: 7,
    MOVECCR: 10,
    MOVEFSR_REG: 7,
    MOVEFSR_MEM: 11,
    MOVESR: 10,
    MOVEUSP: 7,
    MOVEM_WORD: 7,
    MOVEM_LONG: 11,
    MOVEM_MTR: 3,
    MOVEM_ARI: 23,
    MOVEM_ARIWPO: 23,
    MOVEM_ARIWPR: 23,
    MOVEM_ARIWD: 27,
    MOVEM_ARIWI8: 30,
    MOVEM_ABSSHORT: 27,
    MOVEM_ABSLONG: 31,
    MOVEM_PCIWD: 27,
    MOVEM_PCIWI8: 30,
    MOVEP_RTM_WORD: 25,
    MOVEP_RTM_LONG: 39,
    MOVEP_MTR_WORD: 22,
    MOVEP_MTR_LONG: 36,
    MOVEQ: 7,
    MULS: 76,
    MULU: 76,
    NBCD_REG: 10,
    NBCD_MEM: 14,
    NEG_REG_BW: 7,
    NEG_REG_L: 7,
    NEG_MEM_BW: 11,
    NEG_MEM_L: 15,
    NEGX_REG_BW: 7,
    NEGX_REG_L: 7,
    NEGX_MEM_BW: 11,
    NEGX_MEM_L: 15,
    NOP: 7,
    NOT_REG_BW: 7,
    NOT_REG_L: 7,
    NOT_MEM_BW: 11,
    NOT_MEM_L: 15,
    OR_REG_BW: 7,
    OR_REG_L: 7,
    OR_REG_L_RDIMM: 7,
    OR_MEM_BW: 11,
    OR_MEM_L: 15,
    ORI_REG_BW: 14,
    ORI_REG_L: 18,
    ORI_MEM_BW: 18,
    ORI_MEM_L: 26,
    ORICCR: 14,
    ORISR: 14,
    PEA_ARI: 18,
    PEA_ARIWD: 25,
    PEA_ARIWI8: 28,
    PEA_ABSSHORT: 25,
    PEA_ABSLONG: 29,
    PEA_PCIWD: 25,
    PEA_PCIWI8: 28,
    RESET: 154,
    ROM: 14,
    ROR_COUNT: 3,
    ROR_BW: 13,
    ROR_L: 13,
    ROXM: 14,
    ROXR_COUNT: 3,
    ROXR_BW: 13,
    ROXR_L: 13,
    RTE: 39,
    RTR: 22,
    RTS: 15,
    SBCD_REG: 10,
    SBCD_MEM: 31,
    SCC_REG_FALSE: 13,
    SCC_REG_TRUE: 13,
    SCC_MEM_FALSE: 17,
    SCC_MEM_TRUE: 14,
    STOP: 13,
    SUB_REG_BW: 7,
    SUB_REG_L: 7,
    SUB_REG_L_RDIMM: 7,
    SUB_MEM_BW: 11,
    SUB_MEM_L: 15,
    SUBA_WORD: 7,
    SUBA_LONG: 7,
    SUBA_LONG_RDIMM: 7,
    SUBI_REG_BW: 14,
    SUBI_REG_L: 18,
    SUBI_MEM_BW: 18,
    SUBI_MEM_L: 26,
    SUBQ_DREG_BW: 7,
    SUBQ_AREG_BW: 7,
    SUBQ_REG_L: 7,
    SUBQ_MEM_BW: 11,
    SUBQ_MEM_L: 15,
    SUBX_REG_BW: 7,
    SUBX_REG_L: 7,
    SUBX_MEM_BW: 28,
    SUBX_MEM_L: 40,
    SWAP: 7,
    TAS_REG: 10,
    TAS_MEM: 11,
    TRAPV_NO_TRAP: 10,
    TST_REG_BW: 7,
    TST_REG_L: 7,
    TST_MEM_BW: 7,
    TST_MEM_L: 7,
    UNLK: 15,
};

pub static TAG_A: Timing = Timing {
    VECTOR_RESET: 635066745,
    vectors: [599622761, 378320131, 937913967, 900421643, 979308134, 927798380, 695420096, 769991829, 198285176, 618049133, 422359578, 857117509, 605634158, 892784700, 232989470, 909165418, 578742691, 35744399, 829296585, 723285660, 531689049, 608471640, 1024891473, 330514877, 267264750, 271861168, 939418298, 272227724, 511777654, 295734066, 949959792, 382243609, 1042374573, 601513944, 332376599, 526150620, 250885695, 1031817132, 892231330, 242457673, 57111983, 500667172, 535683263, 991614883, 1010822191, 118473033, 16633878, 22734374, 515505974, 262791157, 668784939, 827604658, 558078259, 171906157, 781210264, 896301749, 471657142, 393728076, 564186944, 76556388, 489046576, 466783111, 420120792, 250575197, 102309493, 408827312, 1054835681, 174809124, 573136469, 474440181, 313661255, 436030928, 211479753, 977696767, 656995637, 102280003, 780395753, 362390699, 455330897, 260572586, 569662061, 445448696, 550398628, 3550518, 866508883, 520974205, 96721901, 995608538, 497527173, 124983548, 779832367, 928523399, 355843983, 607774210, 68452844, 342259224, 254050035, 243525717, 485716487, 328481550, 146922747, 16372661, 589757136, 378508993, 434215510, 588012767, 602565098, 791412138, 640820017, 501556616, 578665811, 542373217, 411946802, 505594237, 633922179, 414661482, 782876924, 790793567, 195204830, 1024922318, 637496686, 706703166, 1036118153, 916392149, 326490986, 375200855, 40724532, 762398743, 525064634, 959780445, 1031410651, 574186868, 635846941, 727295444, 955418224, 892751393, 232358846, 1071770161, 786354443, 467969591, 487165050, 1056307423, 549399612, 168044323, 259225056, 1072648402, 258721564, 609600045, 33356269, 533177047, 300183413, 229231706, 960928846, 92851628, 325281590, 66139897, 416383942, 320269474, 406084373, 609501788, 404052337, 281808696, 737587031, 1013716517, 194616804, 738606022, 529535482, 904329020, 960638872, 909278436, 976837885, 65966496, 779073772, 959712642, 578321329, 830731534, 216649729, 143276108, 332164596, 1022818238, 760108097, 78122624, 852704200, 871618372, 625322933, 1064756795, 233687823, 258062677, 31197202, 631868421, 529480076, 960886782, 211280498, 899647723, 394004436, 655860868, 44422423, 206110642, 141164252, 25539573, 1019085962, 651111212, 696331878, 982906768, 782864362, 61605839, 615498587, 114838611, 1000826178, 389180778, 445249792, 1071651747, 512190378, 994832123, 863295624, 175039490, 589409200, 962576870, 791237218, 1016747166, 972078422, 450367591, 31719461, 524302965, 597685307, 30660846, 792074850, 323037546, 450606417, 738872857, 485017810, 414416723, 546171757, 922373859, 84854214, 526466395, 540529368, 218669575, 736312897, 742606661, 608119265, 391493426, 734199170, 648121263, 629873226, 869195576, 950186806, 935061154, 238166447, 100624129, 45569205, 435510041, 293788929, 684631547, 277636889, 168053760],
    EA_ARI: 313667521,
    EA_ARIWPO: 274362612,
    EA_ARIWPR: 97921782,
    EA_ARIWD: 1066581196,
    EA_ARIWI8: 134683227,
    EA_ABSSHORT: 144531345,
    EA_ABSLONG: 518274656,
    EA_PCIWD: 733712787,
    EA_PCIWI8: 203381562,
    EA_IMMEDIATE: 1004932245,
    ABCD_REG: 513026411,
    ABCD_MEM: 412026338,
    ADD_REG_BW: 618259555,
    ADD_REG_L: 807980010,
    ADD_REG_L_RDIMM: 1040278788,
    ADD_MEM_BW: 895635957,
    ADD_MEM_L: 11135169,
    ADDA_WORD: 245006345,
    ADDA_LONG: 429560949,
    ADDA_LONG_RDIMM: 816309369,
    ADDI_REG_BW: 807109714,
    ADDI_REG_L: 1055111708,
    ADDI_MEM_BW: 676148965,
    ADDI_MEM_L: 772095713,
    ADDQ_REG_BW: 759058187,
    ADDQ_REG_L: 235468541,
    ADDQ_MEM_BW: 1070121107,
    ADDQ_MEM_L: 223613628,
    ADDX_REG_BW: 227038857,
    ADDX_REG_L: 693600619,
    ADDX_MEM_BW: 822166070,
    ADDX_MEM_L: 717060322,
    AND_REG_BW: 278870123,
    AND_REG_L: 759891024,
    AND_REG_L_RDIMM: 190614432,
    AND_MEM_BW: 503599973,
    AND_MEM_L: 607347767,
    ANDI_REG_BW: 982190109,
    ANDI_REG_L: 395849420,
    ANDI_MEM_BW: 128223677,
    ANDI_MEM_L: 850827884,
    ANDICCR: 71657100,
    ANDISR: 273719555,
    ASM: 43997028,
    ASR_COUNT: 503952381,
    ASR_BW: 545760057,
    ASR_L: 693124044,
    BCC_BRANCH: 681674468,
    BCC_NO_BRANCH_BYTE: 216065508,
    BCC_NO_BRANCH_WORD: 1037665688,
    BCHG_DYN_REG: 244957740,
    BCHG_DYN_MEM: 464651011,
    BCHG_STA_REG: 716797358,
    BCHG_STA_MEM: 72260295,
    BCLR_DYN_REG: 333925466,
    BCLR_DYN_MEM: 341087500,
    BCLR_STA_REG: 763402575,
    BCLR_STA_MEM: 199543854,
    BRA_BYTE: 927588526,
    BRA_WORD: 234581320,
    BSET_DYN_REG: 13102469,
    BSET_DYN_MEM: 419387518,
    BSET_STA_REG: 494734635,
    BSET_STA_MEM: 391127662,
    BSR_BYTE: 862727694,
    BSR_WORD: 407516782,
    BTST_DYN_REG: 403479022,
    BTST_DYN_MEM: 357563283,
    BTST_STA_REG: 72031311,
    BTST_STA_MEM: 381989408,
    CHK_NO_TRAP: 499368089,
    CLR_REG_BW: 456347895,
    CLR_REG_L: 75463368,
    CLR_MEM_BW: 761828046,
    CLR_MEM_L: 530946726,
    CMP_BW: 564044765,
    CMP_L: 901942824,
    CMPA: 868772486,
    CMPI_REG_BW: 830852135,
    CMPI_REG_L: 70658966,
    CMPI_MEM_BW: 173164423,
    CMPI_MEM_L: 364042260,
    CMPM_BW: 125844634,
    CMPM_L: 451911092,
    DBCC_TRUE: 4124249,
    DBCC_FALSE_BRANCH: 75225493,
    DBCC_FALSE_NO_BRANCH: 774634652,
    DIVS: 627375897,
    DIVU: 830149149,
    EOR_REG_BW: 34165429,
    EOR_REG_L: 529384065,
    EOR_MEM_BW: 1020295751,
    EOR_MEM_L: 570429249,
    EORI_REG_BW: 201428671,
    EORI_REG_L: 237957049,
    EORI_MEM_BW: 934380858,
    EORI_MEM_L: 365032403,
    EORICCR: 808175952,
    EORISR: 118223355,
    EXG: 189877925,
    EXT: 176451658,
    JMP_ARI: 839797804,
    JMP_ARIWD: 953959358,
    JMP_ARIWI8: 372033768,
    JMP_ABSSHORT: 580822343,
    JMP_ABSLONG: 259287091,
    JMP_PCIWD: 1041676308,
    JMP_PCIWI8: 1058395317,
    JSR_ARI: 474422738,
    JSR_ARIWD: 187515413,
    JSR_ARIWI8: 818265173,
    JSR_ABSSHORT: 426794138,
    JSR_ABSLONG: 699607391,
    JSR_PCIWD: 595525792,
    JSR_PCIWI8: 130047554,
    LEA_ARI: 292831334,
    LEA_ARIWD: 414438256,
    LEA_ARIWI8: 996088799,
    LEA_ABSSHORT: 936564924,
    LEA_ABSLONG: 546711878,
    LEA_PCIWD: 643401472,
    LEA_PCIWI8: 232315951,
    LINK: 753983198,
    LSM: 28608419,
    LSR_COUNT: 304982315,
    LSR_BW: 149724277,
    LSR_L: 61855117,
    MOVE_DST_ARIWPR: 163311478,
    MOVE_OTHER: 229706491,
    MOVEA: 891024732,
    MOVECCR: 119831398,
    MOVEFSR_REG: 220374075,
    MOVEFSR_MEM: 95071018,
    MOVESR: 1004255605,
    MOVEUSP: 1042478241,
    MOVEM_WORD: 206255091,
    MOVEM_LONG: 976211325,
    MOVEM_MTR: 913082687,
    MOVEM_ARI: 13001312,
    MOVEM_ARIWPO: 193551287,
    MOVEM_ARIWPR: 1040431681,
    MOVEM_ARIWD: 581548108,
    MOVEM_ARIWI8: 994321522,
    MOVEM_ABSSHORT: 645113607,
    MOVEM_ABSLONG: 929216197,
    MOVEM_PCIWD: 778166266,
    MOVEM_PCIWI8: 1026216616,
    MOVEP_RTM_WORD: 96729367,
    MOVEP_RTM_LONG: 513838887,
    MOVEP_MTR_WORD: 560202309,
    MOVEP_MTR_LONG: 282004462,
    MOVEQ: 444591570,
    MULS: 686684139,
    MULU: 524487493,
    NBCD_REG: 692211615,
    NBCD_MEM: 741541833,
    NEG_REG_BW: 732226141,
    NEG_REG_L: 450039433,
    NEG_MEM_BW: 397492079,
    NEG_MEM_L: 338704785,
    NEGX_REG_BW: 927324394,
    NEGX_REG_L: 1034967520,
    NEGX_MEM_BW: 502642633,
    NEGX_MEM_L: 911685044,
    NOP: 764745355,
    NOT_REG_BW: 761546040,
    NOT_REG_L: 330575087,
    NOT_MEM_BW: 54665962,
    NOT_MEM_L: 792311184,
    OR_REG_BW: 258163954,
    OR_REG_L: 1029391816,
    OR_REG_L_RDIMM: 193992178,
    OR_MEM_BW: 36695749,
    OR_MEM_L: 940581420,
    ORI_REG_BW: 621757087,
    ORI_REG_L: 1073497467,
    ORI_MEM_BW: 48337037,
    ORI_MEM_L: 828986012,
    ORICCR: 629317487,
    ORISR: 739002463,
    PEA_ARI: 766435352,
    PEA_ARIWD: 938245273,
    PEA_ARIWI8: 233628413,
    PEA_ABSSHORT: 3771121,
    PEA_ABSLONG: 615372741,
    PEA_PCIWD: 1070394369,
    PEA_PCIWI8: 123427587,
    RESET: 783524426,
    ROM: 647235328,
    ROR_COUNT: 89349478,
    ROR_BW: 736198900,
    ROR_L: 1022897636,
    ROXM: 749572998,
    ROXR_COUNT: 768316227,
    ROXR_BW: 414921895,
    ROXR_L: 586654566,
    RTE: 968818407,
    RTR: 320925351,
    RTS: 107336849,
    SBCD_REG: 374287739,
    SBCD_MEM: 807033609,
    SCC_REG_FALSE: 922085908,
    SCC_REG_TRUE: 345731660,
    SCC_MEM_FALSE: 452433917,
    SCC_MEM_TRUE: 934197646,
    STOP: 606527224,
    SUB_REG_BW: 93969898,
    SUB_REG_L: 782380540,
    SUB_REG_L_RDIMM: 256022481,
    SUB_MEM_BW: 899643040,
    SUB_MEM_L: 304494001,
    SUBA_WORD: 717454676,
    SUBA_LONG: 1015872646,
    SUBA_LONG_RDIMM: 431600201,
    SUBI_REG_BW: 255349243,
    SUBI_REG_L: 21711614,
    SUBI_MEM_BW: 402772613,
    SUBI_MEM_L: 1064693304,
    SUBQ_DREG_BW: 1020016382,
    SUBQ_AREG_BW: 74565980,
    SUBQ_REG_L: 1021295806,
    SUBQ_MEM_BW: 937754750,
    SUBQ_MEM_L: 178756004,
    SUBX_REG_BW: 701471506,
    SUBX_REG_L: 204641249,
    SUBX_MEM_BW: 1007705287,
    SUBX_MEM_L: 233981853,
    SWAP: 696471569,
    TAS_REG: 700230994,
    TAS_MEM: 582265581,
    TRAPV_NO_TRAP: 897887688,
    TST_REG_BW: 18099203,
    TST_REG_L: 170689628,
    TST_MEM_BW: 783519930,
    TST_MEM_L: 563186216,
    UNLK: 972350162,
};

pub static TAG_B: Timing = Timing {
    VECTOR_RESET: 749466064,
    vectors: [383377692, 286637034, 535246351, 441063324, 612407306, 3087278, 752499654, 593227545, 127146132, 193410135, 752117868, 337904827, 722724659, 871344732, 417895470, 413771934, 973124937, 129561936, 873647072, 802214159, 207606487, 768857924, 674694401, 550149916, 269619877, 305846621, 964214718, 984681676, 1059808945, 140247561, 761702558, 924057792, 972135435, 61765845, 375777921, 878063057, 460724759, 748789609, 807335769, 413704642, 847307473, 335169546, 527613216, 427845791, 478882284, 784344521, 87996214, 390997646, 822423055, 912396545, 170294957, 377383041, 685220871, 263207279, 1067811081, 152522659, 42710068, 1020725458, 665410600, 554062523, 334230931, 804510830, 498495265, 503603802, 1004194471, 956691499, 725819104, 977574911, 262458828, 520233617, 873903282, 905450410, 75259389, 690070643, 917684603, 836587140, 1064164384, 278102851, 489190153, 282971213, 587357049, 179073934, 903823122, 619746940, 596342373, 282157474, 373309885, 825015593, 143469552, 1036872840, 182360344, 150355471, 385187540, 788096293, 991619681, 589370019, 1007340271, 235425565, 902673206, 235707623, 1017641813, 100374743, 932406624, 779803425, 73644968, 481058753, 436664985, 566825699, 170721850, 24643272, 817982560, 279630496, 638731068, 142398222, 306852678, 850245162, 127118951, 987668677, 82390380, 41879998, 981345729, 292285522, 816358308, 563827283, 142463987, 935892335, 148742431, 367082585, 634603365, 599024080, 1048456381, 416973312, 794720785, 844006965, 732100711, 743977665, 1023008845, 938563271, 215343473, 409178022, 970131827, 872685851, 175203599, 266137206, 965184156, 147540205, 377362507, 434313972, 380038856, 978510175, 759625575, 395255197, 1031820651, 50300518, 344622044, 108127410, 154684548, 446456266, 883753622, 636348451, 215868295, 502154732, 258560236, 272659679, 4467789, 792426279, 38709892, 455733008, 70971577, 224762019, 953360439, 1034316156, 927494735, 1057815469, 190730911, 120192365, 197352621, 714339410, 345169908, 170751718, 52146038, 38593132, 634778536, 153131506, 1024849130, 370408691, 1047872671, 703772996, 447672724, 771750695, 348108750, 39444366, 297730009, 292613035, 209060613, 993774392, 504085166, 696841782, 374924533, 441361295, 276228166, 850745444, 190260890, 31699010, 712568046, 136558841, 698451363, 1019252287, 589373047, 216073587, 371769602, 63903560, 162404815, 360839709, 690433170, 772427849, 707183582, 790072781, 617096915, 1029132944, 649239887, 1066722981, 880326130, 113086088, 75273799, 400982792, 92273454, 934539120, 652510947, 1001920012, 725392726, 229795529, 803356032, 930255789, 597563341, 730881514, 377660174, 889163534, 691226326, 831498280, 183704561, 842230854, 679132446, 923482083, 913800882, 773278092, 874208913, 924958759, 130807811, 372564997, 617249325, 925382232, 770151439, 594716456, 160572448, 455188618],
    EA_ARI: 332941522,
    EA_ARIWPO: 251763219,
    EA_ARIWPR: 504403308,
    EA_ARIWD: 639473380,
    EA_ARIWI8: 455780296,
    EA_ABSSHORT: 986947144,
    EA_ABSLONG: 495655413,
    EA_PCIWD: 735744545,
    EA_PCIWI8: 732234764,
    EA_IMMEDIATE: 871151148,
    ABCD_REG: 393734875,
    ABCD_MEM: 254940908,
    ADD_REG_BW: 267417728,
    ADD_REG_L: 640748956,
    ADD_REG_L_RDIMM: 241565728,
    ADD_MEM_BW: 63720298,
    ADD_MEM_L: 625672385,
    ADDA_WORD: 766220088,
    ADDA_LONG: 774746862,
    ADDA_LONG_RDIMM: 530446941,
    ADDI_REG_BW: 814634595,
    ADDI_REG_L: 127681093,
    ADDI_MEM_BW: 42493876,
    ADDI_MEM_L: 814254274,
    ADDQ_REG_BW: 739153755,
    ADDQ_REG_L: 27368120,
    ADDQ_MEM_BW: 135500998,
    ADDQ_MEM_L: 1003826356,
    ADDX_REG_BW: 322593313,
    ADDX_REG_L: 113484839,
    ADDX_MEM_BW: 576616866,
    ADDX_MEM_L: 358392005,
    AND_REG_BW: 852143919,
    AND_REG_L: 141001025,
    AND_REG_L_RDIMM: 211901505,
    AND_MEM_BW: 652071371,
    AND_MEM_L: 489978817,
    ANDI_REG_BW: 108490146,
    ANDI_REG_L: 798261660,
    ANDI_MEM_BW: 221746838,
    ANDI_MEM_L: 909766362,
    ANDICCR: 79552842,
    ANDISR: 349932866,
    ASM: 717112337,
    ASR_COUNT: 200267033,
    ASR_BW: 602346150,
    ASR_L: 954609996,
    BCC_BRANCH: 293422708,
    BCC_NO_BRANCH_BYTE: 207272479,
    BCC_NO_BRANCH_WORD: 382057921,
    BCHG_DYN_REG: 622268315,
    BCHG_DYN_MEM: 9251719,
    BCHG_STA_REG: 879460913,
    BCHG_STA_MEM: 803994126,
    BCLR_DYN_REG: 500465429,
    BCLR_DYN_MEM: 489287329,
    BCLR_STA_REG: 471562231,
    BCLR_STA_MEM: 1048838324,
    BRA_BYTE: 1071496391,
    BRA_WORD: 856868434,
    BSET_DYN_REG: 538567238,
    BSET_DYN_MEM: 580383823,
    BSET_STA_REG: 207052438,
    BSET_STA_MEM: 451674520,
    BSR_BYTE: 858977405,
    BSR_WORD: 105284812,
    BTST_DYN_REG: 854912750,
    BTST_DYN_MEM: 402419875,
    BTST_STA_REG: 324445689,
    BTST_STA_MEM: 1000303500,
    CHK_NO_TRAP: 954880800,
    CLR_REG_BW: 814137776,
    CLR_REG_L: 861149794,
    CLR_MEM_BW: 240216975,
    CLR_MEM_L: 611661862,
    CMP_BW: 1007828452,
    CMP_L: 396845357,
    CMPA: 312700624,
    CMPI_REG_BW: 307142247,
    CMPI_REG_L: 270952093,
    CMPI_MEM_BW: 21044788,
    CMPI_MEM_L: 92557269,
    CMPM_BW: 547542952,
    CMPM_L: 590553272,
    DBCC_TRUE: 1051934315,
    DBCC_FALSE_BRANCH: 349719799,
    DBCC_FALSE_NO_BRANCH: 301515944,
    DIVS: 229123402,
    DIVU: 965644106,
    EOR_REG_BW: 709042079,
    EOR_REG_L: 567626531,
    EOR_MEM_BW: 31110302,
    EOR_MEM_L: 144004490,
    EORI_REG_BW: 926712449,
    EORI_REG_L: 787937549,
    EORI_MEM_BW: 777052853,
    EORI_MEM_L: 284361710,
    EORICCR: 57667732,
    EORISR: 238193172,
    EXG: 555552715,
    EXT: 201489871,
    JMP_ARI: 800786270,
    JMP_ARIWD: 834271726,
    JMP_ARIWI8: 325863690,
    JMP_ABSSHORT: 261297494,
    JMP_ABSLONG: 550488847,
    JMP_PCIWD: 865489339,
    JMP_PCIWI8: 825784665,
    JSR_ARI: 1012949454,
    JSR_ARIWD: 252560067,
    JSR_ARIWI8: 375006032,
    JSR_ABSSHORT: 39055897,
    JSR_ABSLONG: 354809315,
    JSR_PCIWD: 212342793,
    JSR_PCIWI8: 731769812,
    LEA_ARI: 851302315,
    LEA_ARIWD: 66761365,
    LEA_ARIWI8: 772490965,
    LEA_ABSSHORT: 550770975,
    LEA_ABSLONG: 416419208,
    LEA_PCIWD: 129963011,
    LEA_PCIWI8: 890366386,
    LINK: 1035482227,
    LSM: 747879564,
    LSR_COUNT: 992345838,
    LSR_BW: 980154111,
    LSR_L: 28391127,
    MOVE_DST_ARIWPR: 700354311,
    MOVE_OTHER: 823174536,
    MOVEA: 160600281,
    MOVECCR: 840158326,
    MOVEFSR_REG: 375121283,
    MOVEFSR_MEM: 688874996,
    MOVESR: 790657104,
    MOVEUSP: 83473297,
    MOVEM_WORD: 84592092,
    MOVEM_LONG: 191903448,
    MOVEM_MTR: 880749172,
    MOVEM_ARI: 618761490,
    MOVEM_ARIWPO: 836099187,
    MOVEM_ARIWPR: 985517585,
    MOVEM_ARIWD: 770371595,
    MOVEM_ARIWI8: 666166226,
    MOVEM_ABSSHORT: 417847787,
    MOVEM_ABSLONG: 931257539,
    MOVEM_PCIWD: 728267986,
    MOVEM_PCIWI8: 762559081,
    MOVEP_RTM_WORD: 151219262,
    MOVEP_RTM_LONG: 546420894,
    MOVEP_MTR_WORD: 623404433,
    MOVEP_MTR_LONG: 253161261,
    MOVEQ: 573796754,
    MULS: 760249246,
    MULU: 1029127212,
    NBCD_REG: 838112503,
    NBCD_MEM: 385904186,
    NEG_REG_BW: 602362597,
    NEG_REG_L: 718355082,
    NEG_MEM_BW: 649411508,
    NEG_MEM_L: 919710020,
    NEGX_REG_BW: 227141377,
    NEGX_REG_L: 165301442,
    NEGX_MEM_BW: 101442136,
    NEGX_MEM_L: 693540914,
    NOP: 681077672,
    NOT_REG_BW: 1043516356,
    NOT_REG_L: 811076335,
    NOT_MEM_BW: 1048557771,
    NOT_MEM_L: 25680400,
    OR_REG_BW: 49950717,
    OR_REG_L: 120216671,
    OR_REG_L_RDIMM: 518651282,
    OR_MEM_BW: 1019995898,
    OR_MEM_L: 38814168,
    ORI_REG_BW: 956605524,
    ORI_REG_L: 198722713,
    ORI_MEM_BW: 153915097,
    ORI_MEM_L: 1031100340,
    ORICCR: 580162291,
    ORISR: 199000236,
    PEA_ARI: 693586930,
    PEA_ARIWD: 453168336,
    PEA_ARIWI8: 1025874256,
    PEA_ABSSHORT: 309115102,
    PEA_ABSLONG: 646300286,
    PEA_PCIWD: 201089314,
    PEA_PCIWI8: 114778213,
    RESET: 569568154,
    ROM: 61361822,
    ROR_COUNT: 1035307040,
    ROR_BW: 208039911,
    ROR_L: 1007241408,
    ROXM: 290447228,
    ROXR_COUNT: 487175471,
    ROXR_BW: 329173309,
    ROXR_L: 612158958,
    RTE: 144639713,
    RTR: 852387643,
    RTS: 721933794,
    SBCD_REG: 736077458,
    SBCD_MEM: 286552880,
    SCC_REG_FALSE: 913308205,
    SCC_REG_TRUE: 405401885,
    SCC_MEM_FALSE: 396060830,
    SCC_MEM_TRUE: 605941988,
    STOP: 244921532,
    SUB_REG_BW: 691525095,
    SUB_REG_L: 32185300,
    SUB_REG_L_RDIMM: 1071521356,
    SUB_MEM_BW: 199879344,
    SUB_MEM_L: 397703119,
    SUBA_WORD: 977148963,
    SUBA_LONG: 873212458,
    SUBA_LONG_RDIMM: 191665358,
    SUBI_REG_BW: 262736768,
    SUBI_REG_L: 246462943,
    SUBI_MEM_BW: 1058206476,
    SUBI_MEM_L: 989694892,
    SUBQ_DREG_BW: 188918837,
    SUBQ_AREG_BW: 685115771,
    SUBQ_REG_L: 43360198,
    SUBQ_MEM_BW: 863930518,
    SUBQ_MEM_L: 969772999,
    SUBX_REG_BW: 716432535,
    SUBX_REG_L: 897717915,
    SUBX_MEM_BW: 922636757,
    SUBX_MEM_L: 452960576,
    SWAP: 928416389,
    TAS_REG: 641583761,
    TAS_MEM: 1016236676,
    TRAPV_NO_TRAP: 465668388,
    TST_REG_BW: 546870409,
    TST_REG_L: 407796074,
    TST_MEM_BW: 654795700,
    TST_MEM_L: 633408269,
    UNLK: 658322848,
};

pub const ITEM_NAMES: &[&str] = &["VECTOR_RESET", "EA_ARI", "EA_ARIWPO", "EA_ARIWPR", "EA_ARIWD", "EA_ARIWI8", "EA_ABSSHORT", "EA_ABSLONG", "EA_PCIWD", "EA_PCIWI8", "EA_IMMEDIATE", "ABCD_REG", "ABCD_MEM", "ADD_REG_BW", "ADD_REG_L", "ADD_REG_L_RDIMM", "ADD_MEM_BW", "ADD_MEM_L", "ADDA_WORD", "ADDA_LONG", "ADDA_LONG_RDIMM", "ADDI_REG_BW", "ADDI_REG_L", "ADDI_MEM_BW", "ADDI_MEM_L", "ADDQ_REG_BW", "ADDQ_REG_L", "ADDQ_MEM_BW", "ADDQ_MEM_L", "ADDX_REG_BW", "ADDX_REG_L", "ADDX_MEM_BW", "ADDX_MEM_L", "AND_REG_BW", "AND_REG_L", "AND_REG_L_RDIMM", "AND_MEM_BW", "AND_MEM_L", "ANDI_REG_BW", "ANDI_REG_L", "ANDI_MEM_BW", "ANDI_MEM_L", "ANDICCR", "ANDISR", "ASM", "ASR_COUNT", "ASR_BW", "ASR_L", "BCC_BRANCH", "BCC_NO_BRANCH_BYTE", "BCC_NO_BRANCH_WORD", "BCHG_DYN_REG", "BCHG_DYN_MEM", "BCHG_STA_REG", "BCHG_STA_MEM", "BCLR_DYN_REG", "BCLR_DYN_MEM", "BCLR_STA_REG", "BCLR_STA_MEM", "BRA_BYTE", "BRA_WORD", "BSET_DYN_REG", "BSET_DYN_MEM", "BSET_STA_REG", "BSET_STA_MEM", "BSR_BYTE", "BSR_WORD", "BTST_DYN_REG", "BTST_DYN_MEM", "BTST_STA_REG", "BTST_STA_MEM", "CHK_NO_TRAP", "CLR_REG_BW", "CLR_REG_L", "CLR_MEM_BW", "CLR_MEM_L", "CMP_BW", "CMP_L", "CMPA", "CMPI_REG_BW", "CMPI_REG_L", "CMPI_MEM_BW", "CMPI_MEM_L", "CMPM_BW", "CMPM_L", "DBCC_TRUE", "DBCC_FALSE_BRANCH", "DBCC_FALSE_NO_BRANCH", "DIVS", "DIVU", "EOR_REG_BW", "EOR_REG_L", "EOR_MEM_BW", "EOR_MEM_L", "EORI_REG_BW", "EORI_REG_L", "EORI_MEM_BW", "EORI_MEM_L", "EORICCR", "EORISR", "EXG", "EXT", "JMP_ARI", "JMP_ARIWD", "JMP_ARIWI8", "JMP_ABSSHORT", "JMP_ABSLONG", "JMP_PCIWD", "JMP_PCIWI8", "JSR_ARI", "JSR_ARIWD", "JSR_ARIWI8", "JSR_ABSSHORT", "JSR_ABSLONG", "JSR_PCIWD", "JSR_PCIWI8", "LEA_ARI", "LEA_ARIWD", "LEA_ARIWI8", "LEA_ABSSHORT", "LEA_ABSLONG", "LEA_PCIWD", "LEA_PCIWI8", "LINK", "LSM", "LSR_COUNT", "LSR_BW", "LSR_L", "MOVE_DST_ARIWPR", "MOVE_OTHER", "MOVEA", "MOVECCR", "MOVEFSR_REG", "MOVEFSR_MEM", "MOVESR", "MOVEUSP", "MOVEM_WORD", "MOVEM_LONG", "MOVEM_MTR", "MOVEM_ARI", "MOVEM_ARIWPO", "MOVEM_ARIWPR", "MOVEM_ARIWD", "MOVEM_ARIWI8", "MOVEM_ABSSHORT", "MOVEM_ABSLONG", "MOVEM_PCIWD", "MOVEM_PCIWI8", "MOVEP_RTM_WORD", "MOVEP_RTM_LONG", "MOVEP_MTR_WORD", "MOVEP_MTR_LONG", "MOVEQ", "MULS", "MULU", "NBCD_REG", "NBCD_MEM", "NEG_REG_BW", "NEG_REG_L", "NEG_MEM_BW", "NEG_MEM_L", "NEGX_REG_BW", "NEGX_REG_L", "NEGX_MEM_BW", "NEGX_MEM_L", "NOP", "NOT_REG_BW", "NOT_REG_L", "NOT_MEM_BW", "NOT_MEM_L", "OR_REG_BW", "OR_REG_L", "OR_REG_L_RDIMM", "OR_MEM_BW", "OR_MEM_L", "ORI_REG_BW", "ORI_REG_L", "ORI_MEM_BW", "ORI_MEM_L", "ORICCR", "ORISR", "PEA_ARI", "PEA_ARIWD", "PEA_ARIWI8", "PEA_ABSSHORT", "PEA_ABSLONG", "PEA_PCIWD", "PEA_PCIWI8", "RESET", "ROM", "ROR_COUNT", "ROR_BW", "ROR_L", "ROXM", "ROXR_COUNT", "ROXR_BW", "ROXR_L", "RTE", "RTR", "RTS", "SBCD_REG", "SBCD_MEM", "SCC_REG_FALSE", "SCC_REG_TRUE", "SCC_MEM_FALSE", "SCC_MEM_TRUE", "STOP", "SUB_REG_BW", "SUB_REG_L", "SUB_REG_L_RDIMM", "SUB_MEM_BW", "SUB_MEM_L", "SUBA_WORD", "SUBA_LONG", "SUBA_LONG_RDIMM", "SUBI_REG_BW", "SUBI_REG_L", "SUBI_MEM_BW", "SUBI_MEM_L", "SUBQ_DREG_BW", "SUBQ_AREG_BW", "SUBQ_REG_L", "SUBQ_MEM_BW", "SUBQ_MEM_L", "SUBX_REG_BW", "SUBX_REG_L", "SUBX_MEM_BW", "SUBX_MEM_L", "SWAP", "TAS_REG", "TAS_MEM", "TRAPV_NO_TRAP", "TST_REG_BW", "TST_REG_L", "TST_MEM_BW", "TST_MEM_L", "UNLK"];

impl Timing {
    pub fn item(&self, i: usize) -> usize {
        match i {
            0 => self.VECTOR_RESET,
            1 => self.EA_ARI,
            2 => self.EA_ARIWPO,
            3 => self.EA_ARIWPR,
            4 => self.EA_ARIWD,
            5 => self.EA_ARIWI8,
            6 => self.EA_ABSSHORT,
            7 => self.EA_ABSLONG,
            8 => self.EA_PCIWD,
            9 => self.EA_PCIWI8,
            10 => self.EA_IMMEDIATE,
            11 => self.ABCD_REG,
            12 => self.ABCD_MEM,
            13 => self.ADD_REG_BW,
            14 => self.ADD_REG_L,
            15 => self.ADD_REG_L_RDIMM,
            16 => self.ADD_MEM_BW,
            17 => self.ADD_MEM_L,
            18 => self.ADDA_WORD,
            19 => self.ADDA_LONG,
            20 => self.ADDA_LONG_RDIMM,
            21 => self.ADDI_REG_BW,
            22 => self.ADDI_REG_L,
            23 => self.ADDI_MEM_BW,
            24 => self.ADDI_MEM_L,
            25 => self.ADDQ_REG_BW,
            26 => self.ADDQ_REG_L,
            27 => self.ADDQ_MEM_BW,
            28 => self.ADDQ_MEM_L,
            29 => self.ADDX_REG_BW,
            30 => self.ADDX_REG_L,
            31 => self.ADDX_MEM_BW,
            32 => self.ADDX_MEM_L,
            33 => self.AND_REG_BW,
            34 => self.AND_REG_L,
            35 => self.AND_REG_L_RDIMM,
            36 => self.AND_MEM_BW,
            37 => self.AND_MEM_L,
            38 => self.ANDI_REG_BW,
            39 => self.ANDI_REG_L,
            40 => self.ANDI_MEM_BW,
            41 => self.ANDI_MEM_L,
            42 => self.ANDICCR,
            43 => self.ANDISR,
            44 => self.ASM,
            45 => self.ASR_COUNT,
            46 => self.ASR_BW,
            47 => self.ASR_L,
            48 => self.BCC_BRANCH,
            49 => self.BCC_NO_BRANCH_BYTE,
            50 => self.BCC_NO_BRANCH_WORD,
            51 => self.BCHG_DYN_REG,
            52 => self.BCHG_DYN_MEM,
            53 => self.BCHG_STA_REG,
            54 => self.BCHG_STA_MEM,
            55 => self.BCLR_DYN_REG,
            56 => self.BCLR_DYN_MEM,
            57 => self.BCLR_STA_REG,
            58 => self.BCLR_STA_MEM,
            59 => self.BRA_BYTE,
            60 => self.BRA_WORD,
            61 => self.BSET_DYN_REG,
            62 => self.BSET_DYN_MEM,
            63 => self.BSET_STA_REG,
            64 => self.BSET_STA_MEM,
            65 => self.BSR_BYTE,
            66 => self.BSR_WORD,
            67 => self.BTST_DYN_REG,
            68 => self.BTST_DYN_MEM,
            69 => self.BTST_STA_REG,
            70 => self.BTST_STA_MEM,
            71 => self.CHK_NO_TRAP,
            72 => self.CLR_REG_BW,
            73 => self.CLR_REG_L,
            74 => self.CLR_MEM_BW,
            75 => self.CLR_MEM_L,
            76 => self.CMP_BW,
            77 => self.CMP_L,
            78 => self.CMPA,
            79 => self.CMPI_REG_BW,
            80 => self.CMPI_REG_L,
            81 => self.CMPI_MEM_BW,
            82 => self.CMPI_MEM_L,
            83 => self.CMPM_BW,
            84 => self.CMPM_L,
            85 => self.DBCC_TRUE,
            86 => self.DBCC_FALSE_BRANCH,
            87 => self.DBCC_FALSE_NO_BRANCH,
            88 => self.DIVS,
            89 => self.DIVU,
            90 => self.EOR_REG_BW,
            91 => self.EOR_REG_L,
            92 => self.EOR_MEM_BW,
            93 => self.EOR_MEM_L,
            94 => self.EORI_REG_BW,
            95 => self.EORI_REG_L,
            96 => self.EORI_MEM_BW,
            97 => self.EORI_MEM_L,
            98 => self.EORICCR,
            99 => self.EORISR,
            100 => self.EXG,
            101 => self.EXT,
            102 => self.JMP_ARI,
            103 => self.JMP_ARIWD,
            104 => self.JMP_ARIWI8,
            105 => self.JMP_ABSSHORT,
            106 => self.JMP_ABSLONG,
            107 => self.JMP_PCIWD,
            108 => self.JMP_PCIWI8,
            109 => self.JSR_ARI,
            110 => self.JSR_ARIWD,
            111 => self.JSR_ARIWI8,
            112 => self.JSR_ABSSHORT,
            113 => self.JSR_ABSLONG,
            114 => self.JSR_PCIWD,
            115 => self.JSR_PCIWI8,
            116 => self.LEA_ARI,
            117 => self.LEA_ARIWD,
            118 => self.LEA_ARIWI8,
            119 => self.LEA_ABSSHORT,
            120 => self.LEA_ABSLONG,
            121 => self.LEA_PCIWD,
            122 => self.LEA_PCIWI8,
            123 => self.LINK,
            124 => self.LSM,
            125 => self.LSR_COUNT,
            126 => self.LSR_BW,
            127 => self.LSR_L,
            128 => self.MOVE_DST_ARIWPR,
            129 => self.MOVE_OTHER,
            130 => self.MOVEA,
            131 => self.MOVECCR,
            132 => self.MOVEFSR_REG,
            133 => self.MOVEFSR_MEM,
            134 => self.MOVESR,
            135 => self.MOVEUSP,
            136 => self.MOVEM_WORD,
            137 => self.MOVEM_LONG,
            138 => self.MOVEM_MTR,
            139 => self.MOVEM_ARI,
            140 => self.MOVEM_ARIWPO,
            141 => self.MOVEM_ARIWPR,
            142 => self.MOVEM_ARIWD,
            143 => self.MOVEM_ARIWI8,
            144 => self.MOVEM_ABSSHORT,
            145 => self.MOVEM_ABSLONG,
            146 => self.MOVEM_PCIWD,
            147 => self.MOVEM_PCIWI8,
            148 => self.MOVEP_RTM_WORD,
            149 => self.MOVEP_RTM_LONG,
            150 => self.MOVEP_MTR_WORD,
            151 => self.MOVEP_MTR_LONG,
            152 => self.MOVEQ,
            153 => self.MULS,
            154 => self.MULU,
            155 => self.NBCD_REG,
            156 => self.NBCD_MEM,
            157 => self.NEG_REG_BW,
            158 => self.NEG_REG_L,
            159 => self.NEG_MEM_BW,
            160 => self.NEG_MEM_L,
            161 => self.NEGX_REG_BW,
            162 => self.NEGX_REG_L,
            163 => self.NEGX_MEM_BW,
            164 => self.NEGX_MEM_L,
            165 => self.NOP,
            166 => self.NOT_REG_BW,
            167 => self.NOT_REG_L,
            168 => self.NOT_MEM_BW,
            169 => self.NOT_MEM_L,
            170 => self.OR_REG_BW,
            171 => self.OR_REG_L,
            172 => self.OR_REG_L_RDIMM,
            173 => self.OR_MEM_BW,
            174 => self.OR_MEM_L,
            175 => self.ORI_REG_BW,
            176 => self.ORI_REG_L,
            177 => self.ORI_MEM_BW,
            178 => self.ORI_MEM_L,
            179 => self.ORICCR,
            180 => self.ORISR,
            181 => self.PEA_ARI,
            182 => self.PEA_ARIWD,
            183 => self.PEA_ARIWI8,
            184 => self.PEA_ABSSHORT,
            185 => self.PEA_ABSLONG,
            186 => self.PEA_PCIWD,
            187 => self.PEA_PCIWI8,
            188 => self.RESET,
            189 => self.ROM,
            190 => self.ROR_COUNT,
            191 => self.ROR_BW,
            192 => self.ROR_L,
            193 => self.ROXM,
            194 => self.ROXR_COUNT,
            195 => self.ROXR_BW,
            196 => self.ROXR_L,
            197 => self.RTE,
            198 => self.RTR,
            199 => self.RTS,
            200 => self.SBCD_REG,
            201 => self.SBCD_MEM,
            202 => self.SCC_REG_FALSE,
            203 => self.SCC_REG_TRUE,
            204 => self.SCC_MEM_FALSE,
            205 => self.SCC_MEM_TRUE,
            206 => self.STOP,
            207 => self.SUB_REG_BW,
            208 => self.SUB_REG_L,
            209 => self.SUB_REG_L_RDIMM,
            210 => self.SUB_MEM_BW,
            211 => self.SUB_MEM_L,
            212 => self.SUBA_WORD,
            213 => self.SUBA_LONG,
            214 => self.SUBA_LONG_RDIMM,
            215 => self.SUBI_REG_BW,
            216 => self.SUBI_REG_L,
            217 => self.SUBI_MEM_BW,
            218 => self.SUBI_MEM_L,
            219 => self.SUBQ_DREG_BW,
            220 => self.SUBQ_AREG_BW,
            221 => self.SUBQ_REG_L,
            222 => self.SUBQ_MEM_BW,
            223 => self.SUBQ_MEM_L,
            224 => self.SUBX_REG_BW,
            225 => self.SUBX_REG_L,
            226 => self.SUBX_MEM_BW,
            227 => self.SUBX_MEM_L,
            228 => self.SWAP,
            229 => self.TAS_REG,
            230 => self.TAS_MEM,
            231 => self.TRAPV_NO_TRAP,
            232 => self.TST_REG_BW,
            233 => self.TST_REG_L,
            234 => self.TST_MEM_BW,
            235 => self.TST_MEM_L,
            236 => self.UNLK,
            _ => unreachable!(),
        }
    }
}

/// User-style CPU description whose items are all distinct.
#[derive(Clone, Copy, Debug, Default)]
pub struct TagA;
impl CpuDetails for TagA {
    const STACK_FORMAT: StackFormat = StackFormat::MC68000;
    const VECTOR_RESET: usize = 635066745;
    fn vector_execution_time(vector: u8) -> usize { TAG_A.vectors[vector as usize] }
    const EA_ARI: usize = 313667521;
    const EA_ARIWPO: usize = 274362612;
    const EA_ARIWPR: usize = 97921782;
    const EA_ARIWD: usize = 1066581196;
    const EA_ARIWI8: usize = 134683227;
    const EA_ABSSHORT: usize = 144531345;
    const EA_ABSLONG: usize = 518274656;
    const EA_PCIWD: usize = 733712787;
    const EA_PCIWI8: usize = 203381562;
    const EA_IMMEDIATE: usize = 1004932245;
    const ABCD_REG: usize = 513026411;
    const ABCD_MEM: usize = 412026338;
    const ADD_REG_BW: usize = 618259555;
    const ADD_REG_L: usize = 807980010;
    const ADD_REG_L_RDIMM: usize = 1040278788;
    const ADD_MEM_BW: usize = 895635957;
    const ADD_MEM_L: usize = 11135169;
    const ADDA_WORD: usize = 245006345;
    const ADDA_LONG: usize = 429560949;
    const ADDA_LONG_RDIMM: usize = 816309369;
    const ADDI_REG_BW: usize = 807109714;
    const ADDI_REG_L: usize = 1055111708;
    const ADDI_MEM_BW: usize = 676148965;
    const ADDI_MEM_L: usize = 772095713;
    const ADDQ_REG_BW: usize = 759058187;
    const ADDQ_REG_L: usize = 235468541;
    const ADDQ_MEM_BW: usize = 1070121107;
    const ADDQ_MEM_L: usize = 223613628;
    const ADDX_REG_BW: usize = 227038857;
    const ADDX_REG_L: usize = 693600619;
    const ADDX_MEM_BW: usize = 822166070;
    const ADDX_MEM_L: usize = 717060322;
    const AND_REG_BW: usize = 278870123;
    const AND_REG_L: usize = 759891024;
    const AND_REG_L_RDIMM: usize = 190614432;
    const AND_MEM_BW: usize = 503599973;
    const AND_MEM_L: usize = 607347767;
    const ANDI_REG_BW: usize = 982190109;
    const ANDI_REG_L: usize = 395849420;
    const ANDI_MEM_BW: usize = 128223677;
    const ANDI_MEM_L: usize = 850827884;
    const ANDICCR: usize = 71657100;
    const ANDISR: usize = 273719555;
    const ASM: usize = 43997028;
    const ASR_COUNT: usize = 503952381;
    const ASR_BW: usize = 545760057;
    const ASR_L: usize = 693124044;
    const BCC_BRANCH: usize = 681674468;
    const BCC_NO_BRANCH_BYTE: usize = 216065508;
    const BCC_NO_BRANCH_WORD: usize = 1037665688;
    const BCHG_DYN_REG: usize = 244957740;
    const BCHG_DYN_MEM: usize = 464651011;
    const BCHG_STA_REG: usize = 716797358;
    const BCHG_STA_MEM: usize = 72260295;
    const BCLR_DYN_REG: usize = 333925466;
    const BCLR_DYN_MEM: usize = 341087500;
    const BCLR_STA_REG: usize = 763402575;
    const BCLR_STA_MEM: usize = 199543854;
    const BRA_BYTE: usize = 927588526;
    const BRA_WORD: usize = 234581320;
    const BSET_DYN_REG: usize = 13102469;
    const BSET_DYN_MEM: usize = 419387518;
    const BSET_STA_REG: usize = 494734635;
    const BSET_STA_MEM: usize = 391127662;
    const BSR_BYTE: usize = 862727694;
    const BSR_WORD: usize = 407516782;
    const BTST_DYN_REG: usize = 403479022;
    const BTST_DYN_MEM: usize = 357563283;
    const BTST_STA_REG: usize = 72031311;
    const BTST_STA_MEM: usize = 381989408;
    const CHK_NO_TRAP: usize = 499368089;
    const CLR_REG_BW: usize = 456347895;
    const CLR_REG_L: usize = 75463368;
    const CLR_MEM_BW: usize = 761828046;
    const CLR_MEM_L: usize = 530946726;
    const CMP_BW: usize = 564044765;
    const CMP_L: usize = 901942824;
    const CMPA: usize = 868772486;
    const CMPI_REG_BW: usize = 830852135;
    const CMPI_REG_L: usize = 70658966;
    const CMPI_MEM_BW: usize = 173164423;
    const CMPI_MEM_L: usize = 364042260;
    const CMPM_BW: usize = 125844634;
    const CMPM_L: usize = 451911092;
    const DBCC_TRUE: usize = 4124249;
    const DBCC_FALSE_BRANCH: usize = 75225493;
    const DBCC_FALSE_NO_BRANCH: usize = 774634652;
    const DIVS: usize = 627375897;
    const DIVU: usize = 830149149;
    const EOR_REG_BW: usize = 34165429;
    const EOR_REG_L: usize = 529384065;
    const EOR_MEM_BW: usize = 1020295751;
    const EOR_MEM_L: usize = 570429249;
    const EORI_REG_BW: usize = 201428671;
    const EORI_REG_L: usize = 237957049;
    const EORI_MEM_BW: usize = 934380858;
    const EORI_MEM_L: usize = 365032403;
    const EORICCR: usize = 808175952;
    const EORISR: usize = 118223355;
    const EXG: usize = 189877925;
    const EXT: usize = 176451658;
    const JMP_ARI: usize = 839797804;
    const JMP_ARIWD: usize = 953959358;
    const JMP_ARIWI8: usize = 372033768;
    const JMP_ABSSHORT: usize = 580822343;
    const JMP_ABSLONG: usize = 259287091;
    const JMP_PCIWD: usize = 1041676308;
    const JMP_PCIWI8: usize = 1058395317;
    const JSR_ARI: usize = 474422738;
    const JSR_ARIWD: usize = 187515413;
    const JSR_ARIWI8: usize = 818265173;
    const JSR_ABSSHORT: usize = 426794138;
    const JSR_ABSLONG: usize = 699607391;
    const JSR_PCIWD: usize = 595525792;
    const JSR_PCIWI8: usize = 130047554;
    const LEA_ARI: usize = 292831334;
    const LEA_ARIWD: usize = 414438256;
    const LEA_ARIWI8: usize = 996088799;
    const LEA_ABSSHORT: usize = 936564924;
    const LEA_ABSLONG: usize = 546711878;
    const LEA_PCIWD: usize = 643401472;
    const LEA_PCIWI8: usize = 232315951;
    const LINK: usize = 753983198;
    const LSM: usize = 28608419;
    const LSR_COUNT: usize = 304982315;
    const LSR_BW: usize = 149724277;
    const LSR_L: usize = 61855117;
    const MOVE_DST_ARIWPR: usize = 163311478;
    const MOVE_OTHER: usize = 229706491;
    const MOVEA: usize = 891024732;
    const MOVECCR: usize = 119831398;
    const MOVEFSR_REG: usize = 220374075;
    const MOVEFSR_MEM: usize = 95071018;
    const MOVESR: usize = 1004255605;
    const MOVEUSP: usize = 1042478241;
    const MOVEM_WORD: usize = 206255091;
    const MOVEM_LONG: usize = 976211325;
    const MOVEM_MTR: usize = 913082687;
    const MOVEM_ARI: usize = 13001312;
    const MOVEM_ARIWPO: usize = 193551287;
    const MOVEM_ARIWPR: usize = 1040431681;
    const MOVEM_ARIWD: usize = 581548108;
    const MOVEM_ARIWI8: usize = 994321522;
    const MOVEM_ABSSHORT: usize = 645113607;
    const MOVEM_ABSLONG: usize = 929216197;
    const MOVEM_PCIWD: usize = 778166266;
    const MOVEM_PCIWI8: usize = 1026216616;
    const MOVEP_RTM_WORD: usize = 96729367;
    const MOVEP_RTM_LONG: usize = 513838887;
    const MOVEP_MTR_WORD: usize = 560202309;
    const MOVEP_MTR_LONG: usize = 282004462;
    const MOVEQ: usize = 444591570;
    const MULS: usize = 686684139;
    const MULU: usize = 524487493;
    const NBCD_REG: usize = 692211615;
    const NBCD_MEM: usize = 741541833;
    const NEG_REG_BW: usize = 732226141;
    const NEG_REG_L: usize = 450039433;
    const NEG_MEM_BW: usize = 397492079;
    const NEG_MEM_L: usize = 338704785;
    const NEGX_REG_BW: usize = 927324394;
    const NEGX_REG_L: usize = 1034967520;
    const NEGX_MEM_BW: usize = 502642633;
    const NEGX_MEM_L: usize = 911685044;
    const NOP: usize = 764745355;
    const NOT_REG_BW: usize = 761546040;
    const NOT_REG_L: usize = 330575087;
    const NOT_MEM_BW: usize = 54665962;
    const NOT_MEM_L: usize = 792311184;
    const OR_REG_BW: usize = 258163954;
    const OR_REG_L: usize = 1029391816;
    const OR_REG_L_RDIMM: usize = 193992178;
    const OR_MEM_BW: usize = 36695749;
    const OR_MEM_L: usize = 940581420;
    const ORI_REG_BW: usize = 621757087;
    const ORI_REG_L: usize = 1073497467;
    const ORI_MEM_BW: usize = 48337037;
    const ORI_MEM_L: usize = 828986012;
    const ORICCR: usize = 629317487;
    const ORISR: usize = 739002463;
    const PEA_ARI: usize = 766435352;
    const PEA_ARIWD: usize = 938245273;
    const PEA_ARIWI8: usize = 233628413;
    const PEA_ABSSHORT: usize = 3771121;
    const PEA_ABSLONG: usize = 615372741;
    const PEA_PCIWD: usize = 1070394369;
    const PEA_PCIWI8: usize = 123427587;
    const RESET: usize = 783524426;
    const ROM: usize = 647235328;
    const ROR_COUNT: usize = 89349478;
    const ROR_BW: usize = 736198900;
    const ROR_L: usize = 1022897636;
    const ROXM: usize = 749572998;
    const ROXR_COUNT: usize = 768316227;
    const ROXR_BW: usize = 414921895;
    const ROXR_L: usize = 586654566;
    const RTE: usize = 968818407;
    const RTR: usize = 320925351;
    const RTS: usize = 107336849;
    const SBCD_REG: usize = 374287739;
    const SBCD_MEM: usize = 807033609;
    const SCC_REG_FALSE: usize = 922085908;
    const SCC_REG_TRUE: usize = 345731660;
    const SCC_MEM_FALSE: usize = 452433917;
    const SCC_MEM_TRUE: usize = 934197646;
    const STOP: usize = 606527224;
    const SUB_REG_BW: usize = 93969898;
    const SUB_REG_L: usize = 782380540;
    const SUB_REG_L_RDIMM: usize = 256022481;
    const SUB_MEM_BW: usize = 899643040;
    const SUB_MEM_L: usize = 304494001;
    const SUBA_WORD: usize = 717454676;
    const SUBA_LONG: usize = 1015872646;
    const SUBA_LONG_RDIMM: usize = 431600201;
    const SUBI_REG_BW: usize = 255349243;
    const SUBI_REG_L: usize = 21711614;
    const SUBI_MEM_BW: usize = 402772613;
    const SUBI_MEM_L: usize = 1064693304;
    const SUBQ_DREG_BW: usize = 1020016382;
    const SUBQ_AREG_BW: usize = 74565980;
    const SUBQ_REG_L: usize = 1021295806;
    const SUBQ_MEM_BW: usize = 937754750;
    const SUBQ_MEM_L: usize = 178756004;
    const SUBX_REG_BW: usize = 701471506;
    const SUBX_REG_L: usize = 204641249;
    const SUBX_MEM_BW: usize = 1007705287;
    const SUBX_MEM_L: usize = 233981853;
    const SWAP: usize = 696471569;
    const TAS_REG: usize = 700230994;
    const TAS_MEM: usize = 582265581;
    const TRAPV_NO_TRAP: usize = 897887688;
    const TST_REG_BW: usize = 18099203;
    const TST_REG_L: usize = 170689628;
    const TST_MEM_BW: usize = 783519930;
    const TST_MEM_L: usize = 563186216;
    const UNLK: usize = 972350162;
}

/// User-style CPU description whose items are all distinct.
#[derive(Clone, Copy, Debug, Default)]
pub struct TagB;
impl CpuDetails for TagB {
    const STACK_FORMAT: StackFormat = StackFormat::SCC68070;
    const VECTOR_RESET: usize = 749466064;
    fn vector_execution_time(vector: u8) -> usize { TAG_B.vectors[vector as usize] }
    const EA_ARI: usize = 332941522;
    const EA_ARIWPO: usize = 251763219;
    const EA_ARIWPR: usize = 504403308;
    const EA_ARIWD: usize = 639473380;
    const EA_ARIWI8: usize = 455780296;
    const EA_ABSSHORT: usize = 986947144;
    const EA_ABSLONG: usize = 495655413;
    const EA_PCIWD: usize = 735744545;
    const EA_PCIWI8: usize = 732234764;
    const EA_IMMEDIATE: usize = 871151148;
    const ABCD_REG: usize = 393734875;
    const ABCD_MEM: usize = 254940908;
    const ADD_REG_BW: usize = 267417728;
    const ADD_REG_L: usize = 640748956;
    const ADD_REG_L_RDIMM: usize = 241565728;
    const ADD_MEM_BW: usize = 63720298;
    const ADD_MEM_L: usize = 625672385;
    const ADDA_WORD: usize = 766220088;
    const ADDA_LONG: usize = 774746862;
    const ADDA_LONG_RDIMM: usize = 530446941;
    const ADDI_REG_BW: usize = 814634595;
    const ADDI_REG_L: usize = 127681093;
    const ADDI_MEM_BW: usize = 42493876;
    const ADDI_MEM_L: usize = 814254274;
    const ADDQ_REG_BW: usize = 739153755;
    const ADDQ_REG_L: usize = 27368120;
    const ADDQ_MEM_BW: usize = 135500998;
    const ADDQ_MEM_L: usize = 1003826356;
    const ADDX_REG_BW: usize = 322593313;
    const ADDX_REG_L: usize = 113484839;
    const ADDX_MEM_BW: usize = 576616866;
    const ADDX_MEM_L: usize = 358392005;
    const AND_REG_BW: usize = 852143919;
    const AND_REG_L: usize = 141001025;
    const AND_REG_L_RDIMM: usize = 211901505;
    const AND_MEM_BW: usize = 652071371;
    const AND_MEM_L: usize = 489978817;
    const ANDI_REG_BW: usize = 108490146;
    const ANDI_REG_L: usize = 798261660;
    const ANDI_MEM_BW: usize = 221746838;
    const ANDI_MEM_L: usize = 909766362;
    const ANDICCR: usize = 79552842;
    const ANDISR: usize = 349932866;
    const ASM: usize = 717112337;
    const ASR_COUNT: usize = 200267033;
    const ASR_BW: usize = 602346150;
    const ASR_L: usize = 954609996;
    const BCC_BRANCH: usize = 293422708;
    const BCC_NO_BRANCH_BYTE: usize = 207272479;
    const BCC_NO_BRANCH_WORD: usize = 382057921;
    const BCHG_DYN_REG: usize = 622268315;
    const BCHG_DYN_MEM: usize = 9251719;
    const BCHG_STA_REG: usize = 879460913;
    const BCHG_STA_MEM: usize = 803994126;
    const BCLR_DYN_REG: usize = 500465429;
    const BCLR_DYN_MEM: usize = 489287329;
    const BCLR_STA_REG: usize = 471562231;
    const BCLR_STA_MEM: usize = 1048838324;
    const BRA_BYTE: usize = 1071496391;
    const BRA_WORD: usize = 856868434;
    const BSET_DYN_REG: usize = 538567238;
    const BSET_DYN_MEM: usize = 580383823;
    const BSET_STA_REG: usize = 207052438;
    const BSET_STA_MEM: usize = 451674520;
    const BSR_BYTE: usize = 858977405;
    const BSR_WORD: usize = 105284812;
    const BTST_DYN_REG: usize = 854912750;
    const BTST_DYN_MEM: usize = 402419875;
    const BTST_STA_REG: usize = 324445689;
    const BTST_STA_MEM: usize = 1000303500;
    const CHK_NO_TRAP: usize = 954880800;
    const CLR_REG_BW: usize = 814137776;
    const CLR_REG_L: usize = 861149794;
    const CLR_MEM_BW: usize = 240216975;
    const CLR_MEM_L: usize = 611661862;
    const CMP_BW: usize = 1007828452;
    const CMP_L: usize = 396845357;
    const CMPA: usize = 312700624;
    const CMPI_REG_BW: usize = 307142247;
    const CMPI_REG_L: usize = 270952093;
    const CMPI_MEM_BW: usize = 21044788;
    const CMPI_MEM_L: usize = 92557269;
    const CMPM_BW: usize = 547542952;
    const CMPM_L: usize = 590553272;
    const DBCC_TRUE: usize = 1051934315;
    const DBCC_FALSE_BRANCH: usize = 349719799;
    const DBCC_FALSE_NO_BRANCH: usize = 301515944;
    const DIVS: usize = 229123402;
    const DIVU: usize = 965644106;
    const EOR_REG_BW: usize = 709042079;
    const EOR_REG_L: usize = 567626531;
    const EOR_MEM_BW: usize = 31110302;
    const EOR_MEM_L: usize = 144004490;
    const EORI_REG_BW: usize = 926712449;
    const EORI_REG_L: usize = 787937549;
    const EORI_MEM_BW: usize = 777052853;
    const EORI_MEM_L: usize = 284361710;
    const EORICCR: usize = 57667732;
    const EORISR: usize = 238193172;
    const EXG: usize = 555552715;
    const EXT: usize = 201489871;
    const JMP_ARI: usize = 800786270;
    const JMP_ARIWD: usize = 834271726;
    const JMP_ARIWI8: usize = 325863690;
    const JMP_ABSSHORT: usize = 261297494;
    const JMP_ABSLONG: usize = 550488847;
    const JMP_PCIWD: usize = 865489339;
    const JMP_PCIWI8: usize = 825784665;
    const JSR_ARI: usize = 1012949454;
    const JSR_ARIWD: usize = 252560067;
    const JSR_ARIWI8: usize = 375006032;
    const JSR_ABSSHORT: usize = 39055897;
    const JSR_ABSLONG: usize = 354809315;
    const JSR_PCIWD: usize = 212342793;
    const JSR_PCIWI8: usize = 731769812;
    const LEA_ARI: usize = 851302315;
    const LEA_ARIWD: usize = 66761365;
    const LEA_ARIWI8: usize = 772490965;
    const LEA_ABSSHORT: usize = 550770975;
    const LEA_ABSLONG: usize = 416419208;
    const LEA_PCIWD: usize = 129963011;
    const LEA_PCIWI8: usize = 890366386;
    const LINK: usize = 1035482227;
    const LSM: usize = 747879564;
    const LSR_COUNT: usize = 992345838;
    const LSR_BW: usize = 980154111;
    const LSR_L: usize = 28391127;
    const MOVE_DST_ARIWPR: usize = 700354311;
    const MOVE_OTHER: usize = 823174536;
    const MOVEA: usize = 160600281;
    const MOVECCR: usize = 840158326;
    const MOVEFSR_REG: usize = 375121283;
    const MOVEFSR_MEM: usize = 688874996;
    const MOVESR: usize = 790657104;
    const MOVEUSP: usize = 83473297;
    const MOVEM_WORD: usize = 84592092;
    const MOVEM_LONG: usize = 191903448;
    const MOVEM_MTR: usize = 880749172;
    const MOVEM_ARI: usize = 618761490;
    const MOVEM_ARIWPO: usize = 836099187;
    const MOVEM_ARIWPR: usize = 985517585;
    const MOVEM_ARIWD: usize = 770371595;
    const MOVEM_ARIWI8: usize = 666166226;
    const MOVEM_ABSSHORT: usize = 417847787;
    const MOVEM_ABSLONG: usize = 931257539;
    const MOVEM_PCIWD: usize = 728267986;
    const MOVEM_PCIWI8: usize = 762559081;
    const MOVEP_RTM_WORD: usize = 151219262;
    const MOVEP_RTM_LONG: usize = 546420894;
    const MOVEP_MTR_WORD: usize = 623404433;
    const MOVEP_MTR_LONG: usize = 253161261;
    const MOVEQ: usize = 573796754;
    const MULS: usize = 760249246;
    const MULU: usize = 1029127212;
    const NBCD_REG: usize = 838112503;
    const NBCD_MEM: usize = 385904186;
    const NEG_REG_BW: usize = 602362597;
    const NEG_REG_L: usize = 718355082;
    const NEG_MEM_BW: usize = 649411508;
    const NEG_MEM_L: usize = 919710020;
    const NEGX_REG_BW: usize = 227141377;
    const NEGX_REG_L: usize = 165301442;
    const NEGX_MEM_BW: usize = 101442136;
    const NEGX_MEM_L: usize = 693540914;
    const NOP: usize = 681077672;
    const NOT_REG_BW: usize = 1043516356;
    const NOT_REG_L: usize = 811076335;
    const NOT_MEM_BW: usize = 1048557771;
    const NOT_MEM_L: usize = 25680400;
    const OR_REG_BW: usize = 49950717;
    const OR_REG_L: usize = 120216671;
    const OR_REG_L_RDIMM: usize = 518651282;
    const OR_MEM_BW: usize = 1019995898;
    const OR_MEM_L: usize = 38814168;
    const ORI_REG_BW: usize = 956605524;
    const ORI_REG_L: usize = 198722713;
    const ORI_MEM_BW: usize = 153915097;
    const ORI_MEM_L: usize = 1031100340;
    const ORICCR: usize = 580162291;
    const ORISR: usize = 199000236;
    const PEA_ARI: usize = 693586930;
    const PEA_ARIWD: usize = 453168336;
    const PEA_ARIWI8: usize = 1025874256;
    const PEA_ABSSHORT: usize = 309115102;
    const PEA_ABSLONG: usize = 646300286;
    const PEA_PCIWD: usize = 201089314;
    const PEA_PCIWI8: usize = 114778213;
    const RESET: usize = 569568154;
    const ROM: usize = 61361822;
    const ROR_COUNT: usize = 1035307040;
    const ROR_BW: usize = 208039911;
    const ROR_L: usize = 1007241408;
    const ROXM: usize = 290447228;
    const ROXR_COUNT: usize = 487175471;
    const ROXR_BW: usize = 329173309;
    const ROXR_L: usize = 612158958;
    const RTE: usize = 144639713;
    const RTR: usize = 852387643;
    const RTS: usize = 721933794;
    const SBCD_REG: usize = 736077458;
    const SBCD_MEM: usize = 286552880;
    const SCC_REG_FALSE: usize = 913308205;
    const SCC_REG_TRUE: usize = 405401885;
    const SCC_MEM_FALSE: usize = 396060830;
    const SCC_MEM_TRUE: usize = 605941988;
    const STOP: usize = 244921532;
    const SUB_REG_BW: usize = 691525095;
    const SUB_REG_L: usize = 32185300;
    const SUB_REG_L_RDIMM: usize = 1071521356;
    const SUB_MEM_BW: usize = 199879344;
    const SUB_MEM_L: usize = 397703119;
    const SUBA_WORD: usize = 977148963;
    const SUBA_LONG: usize = 873212458;
    const SUBA_LONG_RDIMM: usize = 191665358;
    const SUBI_REG_BW: usize = 262736768;
    const SUBI_REG_L: usize = 246462943;
    const SUBI_MEM_BW: usize = 1058206476;
    const SUBI_MEM_L: usize = 989694892;
    const SUBQ_DREG_BW: usize = 188918837;
    const SUBQ_AREG_BW: usize = 685115771;
    const SUBQ_REG_L: usize = 43360198;
    const SUBQ_MEM_BW: usize = 863930518;
    const SUBQ_MEM_L: usize = 969772999;
    const SUBX_REG_BW: usize = 716432535;
    const SUBX_REG_L: usize = 897717915;
    const SUBX_MEM_BW: usize = 922636757;
    const SUBX_MEM_L: usize = 452960576;
    const SWAP: usize = 928416389;
    const TAS_REG: usize = 641583761;
    const TAS_MEM: usize = 1016236676;
    const TRAPV_NO_TRAP: usize = 465668388;
    const TST_REG_BW: usize = 546870409;
    const TST_REG_L: usize = 407796074;
    const TST_MEM_BW: usize = 654795700;
    const TST_MEM_L: usize = 633408269;
    const UNLK: usize = 658322848;
}

