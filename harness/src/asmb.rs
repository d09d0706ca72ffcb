//! A tiny encoder: RISC-V instruction words for the harness's programs.
pub fn rt(op: u32, f3: u32, f7: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    op | rd << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | f7 << 25
}
pub fn it(op: u32, f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    op | rd << 7 | f3 << 12 | rs1 << 15 | ((imm as u32) & 0xfff) << 20
}
pub fn st(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x23 | (i & 0x1f) << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | (i >> 5 & 0x7f) << 25
}
pub fn br(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x63 | (i >> 11 & 1) << 7 | (i >> 1 & 0xf) << 8 | f3 << 12 | rs1 << 15 | rs2 << 20 | (i >> 5 & 0x3f) << 25 | (i >> 12 & 1) << 31
}
pub fn jal(rd: u32, imm: i32) -> u32 {
    let i = imm as u32;
    0x6f | rd << 7 | (i >> 12 & 0xff) << 12 | (i >> 11 & 1) << 20 | (i >> 1 & 0x3ff) << 21 | (i >> 20 & 1) << 31
}
pub fn jalr(rd: u32, rs1: u32, imm: i32) -> u32 {
    it(0x67, 0, rd, rs1, imm)
}
pub fn lui(rd: u32, imm20: u32) -> u32 {
    0x37 | rd << 7 | imm20 << 12
}
pub fn auipc(rd: u32, imm20: u32) -> u32 {
    0x17 | rd << 7 | imm20 << 12
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 {
    it(0x13, 0, rd, rs1, imm)
}
pub fn add(rd: u32, a: u32, b: u32) -> u32 {
    rt(0x33, 0, 0, rd, a, b)
}
pub fn sub(rd: u32, a: u32, b: u32) -> u32 {
    rt(0x33, 0, 0x20, rd, a, b)
}
pub const ECALL: u32 = 0x73;
pub const EBREAK: u32 = 0x0010_0073;
pub const C_EBREAK: u16 = 0x9002;
/// c.j with offset
pub fn c_j(imm: i32) -> u16 {
    let i = imm as u32;
    (0xa001 | (i >> 11 & 1) << 12 | (i >> 4 & 1) << 11 | (i >> 8 & 3) << 9 | (i >> 10 & 1) << 8 | (i >> 6 & 1) << 7 | (i >> 7 & 1) << 6 | (i >> 1 & 7) << 3 | (i >> 5 & 1) << 2) as u16
}
pub fn c_addi(rd: u32, imm: i32) -> u16 {
    (0x0001 | rd << 7 | ((imm as u32) & 0x1f) << 2 | ((imm as u32) >> 5 & 1) << 12) as u16
}
/// Instruction sequence builder
#[derive(Clone, Default)]
pub struct Code(pub Vec<u8>);
impl Code {
    pub fn new() -> Code {
        Code(vec![])
    }
    pub fn w(&mut self, w: u32) -> &mut Self {
        if w & 3 == 3 {
            self.0.extend_from_slice(&w.to_le_bytes());
        } else {
            self.0.extend_from_slice(&(w as u16).to_le_bytes());
        }
        self
    }
    pub fn ws(&mut self, ws: &[u32]) -> &mut Self {
        for w in ws {
            self.w(*w);
        }
        self
    }
    pub fn exit(&mut self) -> &mut Self {
        // a7 = 93; ecall (a0 is the exit code)
        self.w(addi(17, 0, 93)).w(ECALL)
    }
}
/// Encode by model op: (opcode template word, class)
use crate::spec::Op;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Form {
    R,   // rd rs1 rs2
    R1,  // rd rs1 (unary)
    I,   // rd rs1 imm12
    Sh6, // rd rs1 shamt6
    Sh5, // rd rs1 shamt5
    Ld,  // rd rs1 imm12
    St,
    Br,
    U,
    J,
    Jr,
    Amo, // rd rs1 rs2
    Lr,
    N, // no operands
}
pub fn form(op: Op) -> (Form, u32) {
    use Form::*;
    use Op::*;
    let r = |o: u32, f3: u32, f7: u32| (R, rt(o, f3, f7, 0, 0, 0));
    let r1 = |o: u32, f3: u32, f7: u32, rs2: u32| (R1, rt(o, f3, f7, 0, 0, rs2));
    let amo = |f5: u32, f3: u32| (Amo, rt(0x2f, f3, f5 << 2, 0, 0, 0));
    match op {
        LUI => (U, 0x37),
        AUIPC => (U, 0x17),
        JAL => (J, 0x6f),
        JALR => (Jr, 0x67),
        BEQ => (Br, br(0, 0, 0, 0)),
        BNE => (Br, br(1, 0, 0, 0)),
        BLT => (Br, br(4, 0, 0, 0)),
        BGE => (Br, br(5, 0, 0, 0)),
        BLTU => (Br, br(6, 0, 0, 0)),
        BGEU => (Br, br(7, 0, 0, 0)),
        LB => (Ld, it(3, 0, 0, 0, 0)),
        LH => (Ld, it(3, 1, 0, 0, 0)),
        LW => (Ld, it(3, 2, 0, 0, 0)),
        LD => (Ld, it(3, 3, 0, 0, 0)),
        LBU => (Ld, it(3, 4, 0, 0, 0)),
        LHU => (Ld, it(3, 5, 0, 0, 0)),
        LWU => (Ld, it(3, 6, 0, 0, 0)),
        SB => (St, st(0, 0, 0, 0)),
        SH => (St, st(1, 0, 0, 0)),
        SW => (St, st(2, 0, 0, 0)),
        SD => (St, st(3, 0, 0, 0)),
        ADDI => (I, it(0x13, 0, 0, 0, 0)),
        SLTI => (I, it(0x13, 2, 0, 0, 0)),
        SLTIU => (I, it(0x13, 3, 0, 0, 0)),
        XORI => (I, it(0x13, 4, 0, 0, 0)),
        ORI => (I, it(0x13, 6, 0, 0, 0)),
        ANDI => (I, it(0x13, 7, 0, 0, 0)),
        SLLI => (Sh6, rt(0x13, 1, 0, 0, 0, 0)),
        SRLI => (Sh6, rt(0x13, 5, 0, 0, 0, 0)),
        SRAI => (Sh6, rt(0x13, 5, 0x20, 0, 0, 0)),
        ADD => r(0x33, 0, 0),
        SUB => r(0x33, 0, 0x20),
        SLL => r(0x33, 1, 0),
        SLT => r(0x33, 2, 0),
        SLTU => r(0x33, 3, 0),
        XOR => r(0x33, 4, 0),
        SRL => r(0x33, 5, 0),
        SRA => r(0x33, 5, 0x20),
        OR => r(0x33, 6, 0),
        AND => r(0x33, 7, 0),
        FENCE => (N, 0x0000000f),
        FENCEI => (N, 0x0000100f),
        ECALL => (N, 0x73),
        EBREAK => (N, 0x00100073),
        ADDIW => (I, it(0x1b, 0, 0, 0, 0)),
        SLLIW => (Sh5, rt(0x1b, 1, 0, 0, 0, 0)),
        SRLIW => (Sh5, rt(0x1b, 5, 0, 0, 0, 0)),
        SRAIW => (Sh5, rt(0x1b, 5, 0x20, 0, 0, 0)),
        ADDW => r(0x3b, 0, 0),
        SUBW => r(0x3b, 0, 0x20),
        SLLW => r(0x3b, 1, 0),
        SRLW => r(0x3b, 5, 0),
        SRAW => r(0x3b, 5, 0x20),
        MUL => r(0x33, 0, 1),
        MULH => r(0x33, 1, 1),
        MULHSU => r(0x33, 2, 1),
        MULHU => r(0x33, 3, 1),
        DIV => r(0x33, 4, 1),
        DIVU => r(0x33, 5, 1),
        REM => r(0x33, 6, 1),
        REMU => r(0x33, 7, 1),
        MULW => r(0x3b, 0, 1),
        DIVW => r(0x3b, 4, 1),
        DIVUW => r(0x3b, 5, 1),
        REMW => r(0x3b, 6, 1),
        REMUW => r(0x3b, 7, 1),
        ADDUW => r(0x3b, 0, 4),
        ROLW => r(0x3b, 1, 0x30),
        SH1ADDUW => r(0x3b, 2, 0x10),
        SH2ADDUW => r(0x3b, 4, 0x10),
        SH3ADDUW => r(0x3b, 6, 0x10),
        ZEXTH => r1(0x3b, 4, 4, 0),
        RORW => r(0x3b, 5, 0x30),
        ANDN => r(0x33, 7, 0x20),
        ORN => r(0x33, 6, 0x20),
        XNOR => r(0x33, 4, 0x20),
        ROL => r(0x33, 1, 0x30),
        ROR => r(0x33, 5, 0x30),
        BINV => r(0x33, 1, 0x34),
        BSET => r(0x33, 1, 0x14),
        BCLR => r(0x33, 1, 0x24),
        BEXT => r(0x33, 5, 0x24),
        SH1ADD => r(0x33, 2, 0x10),
        SH2ADD => r(0x33, 4, 0x10),
        SH3ADD => r(0x33, 6, 0x10),
        CLMUL => r(0x33, 1, 5),
        CLMULR => r(0x33, 2, 5),
        CLMULH => r(0x33, 3, 5),
        MIN => r(0x33, 4, 5),
        MINU => r(0x33, 5, 5),
        MAX => r(0x33, 6, 5),
        MAXU => r(0x33, 7, 5),
        ORCB => r1(0x13, 5, 0x14, 7),
        REV8 => r1(0x13, 5, 0x35, 0x18),
        CLZ => r1(0x13, 1, 0x30, 0),
        CTZ => r1(0x13, 1, 0x30, 1),
        CPOP => r1(0x13, 1, 0x30, 2),
        SEXTB => r1(0x13, 1, 0x30, 4),
        SEXTH => r1(0x13, 1, 0x30, 5),
        BCLRI => (Sh6, rt(0x13, 1, 0x24, 0, 0, 0)),
        BEXTI => (Sh6, rt(0x13, 5, 0x24, 0, 0, 0)),
        BINVI => (Sh6, rt(0x13, 1, 0x34, 0, 0, 0)),
        BSETI => (Sh6, rt(0x13, 1, 0x14, 0, 0, 0)),
        RORI => (Sh6, rt(0x13, 5, 0x30, 0, 0, 0)),
        CLZW => r1(0x1b, 1, 0x30, 0),
        CTZW => r1(0x1b, 1, 0x30, 1),
        CPOPW => r1(0x1b, 1, 0x30, 2),
        RORIW => (Sh5, rt(0x1b, 5, 0x30, 0, 0, 0)),
        SLLIUW => (Sh6, rt(0x1b, 1, 4, 0, 0, 0)),
        LR_W => (Lr, rt(0x2f, 2, 2 << 2, 0, 0, 0)),
        LR_D => (Lr, rt(0x2f, 3, 2 << 2, 0, 0, 0)),
        SC_W => amo(3, 2),
        SC_D => amo(3, 3),
        AMOSWAP_W => amo(1, 2),
        AMOADD_W => amo(0, 2),
        AMOXOR_W => amo(4, 2),
        AMOAND_W => amo(12, 2),
        AMOOR_W => amo(8, 2),
        AMOMIN_W => amo(16, 2),
        AMOMAX_W => amo(20, 2),
        AMOMINU_W => amo(24, 2),
        AMOMAXU_W => amo(28, 2),
        AMOSWAP_D => amo(1, 3),
        AMOADD_D => amo(0, 3),
        AMOXOR_D => amo(4, 3),
        AMOAND_D => amo(12, 3),
        AMOOR_D => amo(8, 3),
        AMOMIN_D => amo(16, 3),
        AMOMAX_D => amo(20, 3),
        AMOMINU_D => amo(24, 3),
        AMOMAXU_D => amo(28, 3),
    }
}
/// Encode `op` with operands; `imm` is the immediate (U: upper 20 bits as the value of imm[31:12]).
pub fn enc(op: Op, rd: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let (f, b) = form(op);
    match f {
        Form::R | Form::Amo => b | rd << 7 | rs1 << 15 | rs2 << 20,
        Form::R1 | Form::Lr => b | rd << 7 | rs1 << 15,
        Form::I | Form::Ld | Form::Jr => b | rd << 7 | rs1 << 15 | ((imm as u32) & 0xfff) << 20,
        Form::Sh6 => b | rd << 7 | rs1 << 15 | ((imm as u32) & 0x3f) << 20,
        Form::Sh5 => b | rd << 7 | rs1 << 15 | ((imm as u32) & 0x1f) << 20,
        Form::St => {
            let i = imm as u32;
            b | (i & 0x1f) << 7 | rs1 << 15 | rs2 << 20 | (i >> 5 & 0x7f) << 25
        }
        Form::Br => b | (br(0, rs1, rs2, imm) & !0x7f),
        Form::U => b | rd << 7 | ((imm as u32) & 0xfffff) << 12,
        Form::J => jal(rd, imm),
        Form::N => b,
    }
}
