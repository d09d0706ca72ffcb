//! Reference model: RISC-V RV32/RV64 IMC + B(Zba,Zbb,Zbc,Zbs) + A, written from the ISA manuals and
//! CKB-VM's documented version rules. Deliberately boring: no caching, no traces, one instruction
//! at a time. Nothing here calls into ckb-vm.

pub const PAGE: u64 = 4096;
pub const EXEC: u8 = 2;
pub const FREEZED: u8 = 1;
pub const DIRTY: u8 = 4;
pub const ISA_B: u8 = 1;
pub const ISA_MOP: u8 = 2;
pub const ISA_A: u8 = 4;

macro_rules! ops {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        #[repr(u8)]
        pub enum Op { $($n),* }
        pub const ALL_OPS: &[Op] = &[$(Op::$n),*];
        impl Op { pub fn name(self) -> &'static str { match self { $(Op::$n => stringify!($n)),* } } }
    }
}
ops!(
    LUI, AUIPC, JAL, JALR, BEQ, BNE, BLT, BGE, BLTU, BGEU, LB, LH, LW, LBU, LHU, LWU, LD, SB, SH, SW, SD,
    ADDI, SLTI, SLTIU, XORI, ORI, ANDI, SLLI, SRLI, SRAI, ADD, SUB, SLL, SLT, SLTU, XOR, SRL, SRA, OR, AND,
    FENCE, FENCEI, ECALL, EBREAK, ADDIW, SLLIW, SRLIW, SRAIW, ADDW, SUBW, SLLW, SRLW, SRAW,
    MUL, MULH, MULHSU, MULHU, DIV, DIVU, REM, REMU, MULW, DIVW, DIVUW, REMW, REMUW,
    ADDUW, ROLW, SH1ADDUW, ZEXTH, SH2ADDUW, RORW, SH3ADDUW, ANDN, ORN, XNOR, ROL, ROR, BINV, BSET, BCLR, BEXT,
    SH1ADD, SH2ADD, SH3ADD, CLMUL, CLMULH, CLMULR, MIN, MINU, MAX, MAXU, ORCB, REV8, CLZ, CPOP, CTZ, SEXTB, SEXTH,
    BCLRI, BEXTI, BINVI, BSETI, RORI, CLZW, CPOPW, CTZW, RORIW, SLLIUW,
    LR_W, SC_W, AMOSWAP_W, AMOADD_W, AMOXOR_W, AMOAND_W, AMOOR_W, AMOMIN_W, AMOMAX_W, AMOMINU_W, AMOMAXU_W,
    LR_D, SC_D, AMOSWAP_D, AMOADD_D, AMOXOR_D, AMOAND_D, AMOOR_D, AMOMIN_D, AMOMAX_D, AMOMINU_D, AMOMAXU_D,
);

/// A decoded instruction. Unused fields are zero.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SI {
    pub op: Op,
    pub rd: u8,
    pub rs1: u8,
    pub rs2: u8,
    pub imm: i64,
    pub len: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Cfg {
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
}

#[inline(always)]
fn bits(w: u32, lo: u32, n: u32) -> u32 {
    (w >> lo) & ((1u32 << n) - 1)
}
#[inline(always)]
fn sx(v: u32, n: u32) -> i64 {
    (((v << (32 - n)) as i32) >> (32 - n)) as i64
}

fn r(op: Op, rd: u32, rs1: u32, rs2: u32) -> SI {
    SI { op, rd: rd as u8, rs1: rs1 as u8, rs2: rs2 as u8, imm: 0, len: 4 }
}
fn im(op: Op, rd: u32, rs1: u32, imm: i64) -> SI {
    SI { op, rd: rd as u8, rs1: rs1 as u8, rs2: 0, imm, len: 4 }
}
fn s(op: Op, rs1: u32, rs2: u32, imm: i64) -> SI {
    SI { op, rd: 0, rs1: rs1 as u8, rs2: rs2 as u8, imm, len: 4 }
}
fn u(op: Op, rd: u32, imm: i64) -> SI {
    SI { op, rd: rd as u8, rs1: 0, rs2: 0, imm, len: 4 }
}
pub fn nop() -> SI {
    im(Op::ADDI, 0, 0, 0)
}

/// Decode the low 16 bits (compressed) or all 32 bits of `w`.
pub fn decode(w: u32, c: Cfg) -> Option<SI> {
    if w & 3 != 3 {
        return decode16(w & 0xffff, c).map(|mut i| {
            i.len = 2;
            i
        });
    }
    decode32(w, c)
}

fn decode32(w: u32, c: Cfg) -> Option<SI> {
    use Op::*;
    let rv64 = c.xlen == 64;
    let (rd, f3, rs1, rs2, f7) = (bits(w, 7, 5), bits(w, 12, 3), bits(w, 15, 5), bits(w, 20, 5), bits(w, 25, 7));
    let iimm = sx(w >> 20, 12);
    let b = c.isa & ISA_B != 0;
    match w & 0x7f {
        0x37 => Some(u(LUI, rd, (w & 0xffff_f000) as i32 as i64)),
        0x17 => Some(u(AUIPC, rd, (w & 0xffff_f000) as i32 as i64)),
        0x6f => {
            let v = bits(w, 21, 10) << 1 | bits(w, 20, 1) << 11 | bits(w, 12, 8) << 12 | bits(w, 31, 1) << 20;
            Some(u(JAL, rd, sx(v, 21)))
        }
        0x67 if f3 == 0 => Some(im(JALR, rd, rs1, iimm)),
        0x63 => {
            let v = bits(w, 8, 4) << 1 | bits(w, 25, 6) << 5 | bits(w, 7, 1) << 11 | bits(w, 31, 1) << 12;
            let op = match f3 { 0 => BEQ, 1 => BNE, 4 => BLT, 5 => BGE, 6 => BLTU, 7 => BGEU, _ => return None };
            Some(s(op, rs1, rs2, sx(v, 13)))
        }
        0x03 => {
            let op = match f3 { 0 => LB, 1 => LH, 2 => LW, 3 if rv64 => LD, 4 => LBU, 5 => LHU, 6 if rv64 => LWU, _ => return None };
            Some(im(op, rd, rs1, iimm))
        }
        0x23 => {
            let op = match f3 { 0 => SB, 1 => SH, 2 => SW, 3 if rv64 => SD, _ => return None };
            Some(s(op, rs1, rs2, sx(bits(w, 7, 5) | f7 << 5, 12)))
        }
        0x13 => {
            let op = match f3 { 0 => ADDI, 2 => SLTI, 3 => SLTIU, 4 => XORI, 6 => ORI, 7 => ANDI, _ => {
                // shifts; the six-bit amount is reduced modulo XLEN (RV32 ignores bit 5)
                let t6 = f7 >> 1;
                let sh = bits(w, 20, 6);
                let base = match (f3, t6) { (1, 0) => Some(SLLI), (5, 0) => Some(SRLI), (5, 0x10) => Some(SRAI), _ => None };
                if let Some(op) = base { return Some(im(op, rd, rs1, (sh & (c.xlen - 1)) as i64)); }
                if !b { return None; }
                let un = match (f7, f3, rs2) {
                    (0x14, 5, 7) => Some(ORCB), (0x35, 5, 0x18) => Some(REV8), (0x30, 1, 0) => Some(CLZ), (0x30, 1, 1) => Some(CTZ),
                    (0x30, 1, 2) => Some(CPOP), (0x30, 1, 4) => Some(SEXTB), (0x30, 1, 5) => Some(SEXTH), _ => None };
                if let Some(op) = un { return Some(r(op, rd, rs1, 0)); }
                let op = match (t6, f3) { (0x12, 1) => BCLRI, (0x12, 5) => BEXTI, (0x1a, 1) => BINVI, (0x0a, 1) => BSETI, (0x18, 5) => RORI, _ => return None };
                return Some(im(op, rd, rs1, sh as i64));
            }};
            Some(im(op, rd, rs1, iimm))
        }
        0x1b => {
            if f3 == 0 { return if rv64 { Some(im(ADDIW, rd, rs1, iimm)) } else { None }; }
            if rv64 {
                let op = match (f3, f7) { (1, 0) => Some(SLLIW), (5, 0) => Some(SRLIW), (5, 0x20) => Some(SRAIW), _ => None };
                if let Some(op) = op { return Some(im(op, rd, rs1, rs2 as i64)); }
            }
            if !b { return None; }
            match (f7, f3) {
                (0x30, 1) => { let op = match rs2 { 0 => CLZW, 1 => CTZW, 2 => CPOPW, _ => return None }; Some(r(op, rd, rs1, 0)) }
                (0x30, 5) => Some(im(RORIW, rd, rs1, rs2 as i64)),
                _ if f7 >> 1 == 2 && f3 == 1 => Some(im(SLLIUW, rd, rs1, bits(w, 20, 6) as i64)),
                _ => None,
            }
        }
        0x33 => {
            let op = match (f7, f3) {
                (0, 0) => ADD, (0x20, 0) => SUB, (0, 1) => SLL, (0, 2) => SLT, (0, 3) => SLTU, (0, 4) => XOR, (0, 5) => SRL, (0x20, 5) => SRA, (0, 6) => OR, (0, 7) => AND,
                (1, 0) => MUL, (1, 1) => MULH, (1, 2) => MULHSU, (1, 3) => MULHU, (1, 4) => DIV, (1, 5) => DIVU, (1, 6) => REM, (1, 7) => REMU,
                (0x20, 7) if b => ANDN, (0x20, 6) if b => ORN, (0x20, 4) if b => XNOR, (0x30, 1) if b => ROL, (0x30, 5) if b => ROR,
                (0x34, 1) if b => BINV, (0x14, 1) if b => BSET, (0x24, 1) if b => BCLR, (0x24, 5) if b => BEXT,
                (0x10, 2) if b => SH1ADD, (0x10, 4) if b => SH2ADD, (0x10, 6) if b => SH3ADD,
                (5, 1) if b => CLMUL, (5, 3) if b => CLMULH, (5, 2) if b => CLMULR, (5, 4) if b => MIN, (5, 5) if b => MINU, (5, 6) if b => MAX, (5, 7) if b => MAXU,
                _ => return None };
            Some(r(op, rd, rs1, rs2))
        }
        0x3b => {
            if rv64 {
                let op = match (f7, f3) {
                    (0, 0) => Some(ADDW), (0x20, 0) => Some(SUBW), (0, 1) => Some(SLLW), (0, 5) => Some(SRLW), (0x20, 5) => Some(SRAW),
                    (1, 0) => Some(MULW), (1, 4) => Some(DIVW), (1, 5) => Some(DIVUW), (1, 6) => Some(REMW), (1, 7) => Some(REMUW), _ => None };
                if let Some(op) = op { return Some(r(op, rd, rs1, rs2)); }
            }
            if !b { return None; }
            let op = match (f7, f3) {
                (4, 0) => ADDUW, (0x30, 1) => ROLW, (0x10, 2) => SH1ADDUW, (4, 4) if rv64 && rs2 == 0 => ZEXTH, (0x10, 4) => SH2ADDUW, (0x30, 5) => RORW, (0x10, 6) => SH3ADDUW, _ => return None };
            Some(r(op, rd, rs1, if op == ZEXTH { 0 } else { rs2 }))
        }
        0x0f => {
            if w == 0x0000_100f { return Some(r(FENCEI, 0, 0, 0)); }
            if w & 0x000f_ffff == 0x0000_000f { return Some(r(FENCE, 0, 0, 0)); }
            None
        }
        0x73 => match w { 0x0000_0073 => Some(r(ECALL, 0, 0, 0)), 0x0010_0073 => Some(r(EBREAK, 0, 0, 0)), _ => None },
        0x2f => {
            if c.isa & ISA_A == 0 { return None; }
            let f5 = f7 >> 2;
            let w32 = match f3 { 2 => true, 3 if rv64 => false, _ => return None };
            let op = match (f5, w32) {
                (2, true) if rs2 == 0 => LR_W, (2, false) if rs2 == 0 => LR_D,
                (3, true) => SC_W, (1, true) => AMOSWAP_W, (0, true) => AMOADD_W, (4, true) => AMOXOR_W, (12, true) => AMOAND_W, (8, true) => AMOOR_W,
                (16, true) => AMOMIN_W, (20, true) => AMOMAX_W, (24, true) => AMOMINU_W, (28, true) => AMOMAXU_W,
                (3, false) => SC_D, (1, false) => AMOSWAP_D, (0, false) => AMOADD_D, (4, false) => AMOXOR_D, (12, false) => AMOAND_D, (8, false) => AMOOR_D,
                (16, false) => AMOMIN_D, (20, false) => AMOMAX_D, (24, false) => AMOMINU_D, (28, false) => AMOMAXU_D,
                _ => return None };
            Some(r(op, rd, rs1, rs2))
        }
        _ => None,
    }
}

fn decode16(w: u32, c: Cfg) -> Option<SI> {
    use Op::*;
    let rv64 = c.xlen == 64;
    // From version 1 on, HINT encodings are no-ops; version 0 treats them as illegal.
    let hint = || if c.version >= 1 { Some(nop()) } else { None };
    let f3 = bits(w, 13, 3);
    let rdp = bits(w, 2, 3) + 8; // rd' / rs2' in [4:2]
    let rs1p = bits(w, 7, 3) + 8; // rs1' / rd' in [9:7]
    let rd = bits(w, 7, 5);
    let rs2 = bits(w, 2, 5);
    let imm6 = sx(bits(w, 12, 1) << 5 | bits(w, 2, 5), 6);
    let uimm6 = bits(w, 12, 1) << 5 | bits(w, 2, 5);
    let sh = (uimm6 & (c.xlen - 1)) as i64;
    let uw = (bits(w, 10, 3) << 3 | bits(w, 6, 1) << 2 | bits(w, 5, 1) << 6) as i64;
    let ud = (bits(w, 10, 3) << 3 | bits(w, 5, 2) << 6) as i64;
    match (w & 3, f3) {
        (0, 0) => {
            let n = bits(w, 11, 2) << 4 | bits(w, 7, 4) << 6 | bits(w, 6, 1) << 2 | bits(w, 5, 1) << 3;
            if n == 0 { None } else { Some(im(ADDI, rdp, 2, n as i64)) }
        }
        (0, 2) => Some(im(LW, rdp, rs1p, uw)),
        (0, 3) if rv64 => Some(im(LD, rdp, rs1p, ud)),
        (0, 6) => Some(s(SW, rs1p, rdp, uw)),
        (0, 7) if rv64 => Some(s(SD, rs1p, rdp, ud)),
        (1, 0) => {
            if rd == 0 && imm6 == 0 { return Some(nop()); }
            if rd == 0 || imm6 == 0 { return hint(); }
            Some(im(ADDI, rd, rd, imm6))
        }
        (1, 1) => {
            if rv64 {
                if rd == 0 { None } else { Some(im(ADDIW, rd, rd, imm6)) }
            } else {
                Some(u(JAL, 1, cj(w)))
            }
        }
        (1, 2) => if rd == 0 { hint() } else { Some(im(ADDI, rd, 0, imm6)) },
        (1, 3) => {
            if imm6 == 0 { return None; }
            if rd == 2 {
                let v = bits(w, 12, 1) << 9 | bits(w, 6, 1) << 4 | bits(w, 5, 1) << 6 | bits(w, 3, 2) << 7 | bits(w, 2, 1) << 5;
                return Some(im(ADDI, 2, 2, sx(v, 10)));
            }
            if rd == 0 { hint() } else { Some(u(LUI, rd, imm6 << 12)) }
        }
        (1, 4) => match bits(w, 10, 2) {
            0 | 1 => {
                // shift amount 0 is a no-op in every version
                if uimm6 == 0 { return Some(nop()); }
                Some(im(if bits(w, 10, 2) == 0 { SRLI } else { SRAI }, rs1p, rs1p, sh))
            }
            2 => Some(im(ANDI, rs1p, rs1p, imm6)),
            _ => {
                let op = match (bits(w, 12, 1), bits(w, 5, 2)) { (0, 0) => SUB, (0, 1) => XOR, (0, 2) => OR, (0, 3) => AND, (1, 0) if rv64 => SUBW, (1, 1) if rv64 => ADDW, _ => return None };
                Some(r(op, rs1p, rs1p, rdp))
            }
        },
        (1, 5) => Some(u(JAL, 0, cj(w))),
        (1, 6) | (1, 7) => {
            let v = bits(w, 12, 1) << 8 | bits(w, 10, 2) << 3 | bits(w, 5, 2) << 6 | bits(w, 3, 2) << 1 | bits(w, 2, 1) << 5;
            Some(s(if f3 == 6 { BEQ } else { BNE }, rs1p, 0, sx(v, 9)))
        }
        (2, 0) => if rd == 0 || uimm6 == 0 { hint() } else { Some(im(SLLI, rd, rd, sh)) },
        (2, 2) => if rd == 0 { None } else { Some(im(LW, rd, 2, (bits(w, 12, 1) << 5 | bits(w, 4, 3) << 2 | bits(w, 2, 2) << 6) as i64)) },
        (2, 3) if rv64 => if rd == 0 { None } else { Some(im(LD, rd, 2, (bits(w, 12, 1) << 5 | bits(w, 5, 2) << 3 | bits(w, 2, 3) << 6) as i64)) },
        (2, 4) => match (bits(w, 12, 1), rd, rs2) {
            (0, 0, 0) => None,
            (0, rs1, 0) => Some(im(JALR, 0, rs1, 0)),
            (0, 0, _) => hint(),
            (0, rd, rs2) => Some(r(ADD, rd, 0, rs2)),
            (_, 0, 0) => Some(r(EBREAK, 0, 0, 0)),
            (_, rs1, 0) => Some(im(JALR, 1, rs1, 0)),
            (_, 0, _) => hint(),
            (_, rd, rs2) => Some(r(ADD, rd, rd, rs2)),
        },
        (2, 6) => Some(s(SW, 2, rs2, (bits(w, 9, 4) << 2 | bits(w, 7, 2) << 6) as i64)),
        (2, 7) if rv64 => Some(s(SD, 2, rs2, (bits(w, 10, 3) << 3 | bits(w, 7, 3) << 6) as i64)),
        _ => None,
    }
}
fn cj(w: u32) -> i64 {
    let v = bits(w, 12, 1) << 11 | bits(w, 11, 1) << 4 | bits(w, 9, 2) << 8 | bits(w, 8, 1) << 10 | bits(w, 7, 1) << 6 | bits(w, 6, 1) << 7 | bits(w, 3, 3) << 1 | bits(w, 2, 1) << 5;
    sx(v, 12)
}

/// Fold encodings that are the same no-op (an ALU instruction that cannot change anything).
pub fn canon(mut i: SI) -> SI {
    use Op::*;
    if matches!(i.op, FENCE | FENCEI) {
        i.rd = 0;
        i.rs1 = 0;
        i.rs2 = 0;
        i.imm = 0;
    }
    let pure = !matches!(
        i.op,
        JAL | JALR | BEQ | BNE | BLT | BGE | BLTU | BGEU | LB | LH | LW | LBU | LHU | LWU | LD | SB | SH | SW | SD | FENCE | FENCEI | ECALL | EBREAK
    ) && (i.op as u8) < (LR_W as u8);
    let same = i.rd == i.rs1
        && i.imm == 0
        && matches!(i.op, ADDI | SLLI | SRLI | SRAI | XORI | ORI | RORI);
    if pure && (i.rd == 0 || same) {
        let l = i.len;
        i = nop();
        i.len = l;
    }
    i
}

// ------------------------------------------------------------------ execution
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Oob,
    Perm,
    Frozen,
    Inval,
    Ecall,
    Cycles,
    CyclesOverflow,
    Version,
    Pause,
    Ext,
    Unaligned,
    Other,
}
/// A trap with the set of error kinds a conforming engine may report.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Trap(pub Vec<Kind>);
pub fn trap(k: Kind) -> Trap {
    Trap(vec![k])
}

/// Byte memory with page flags; absent pages read as zero.
#[derive(Clone)]
pub struct SMem {
    pub size: u64,
    pub pages: Vec<Option<Box<[u8; 4096]>>>,
    pub flags: Vec<u8>,
}
impl SMem {
    pub fn new(size: u64) -> SMem {
        let n = (size / PAGE) as usize;
        SMem { size, pages: vec![None; n], flags: vec![0; n] }
    }
    #[inline]
    pub fn rd8(&self, a: u64) -> u8 {
        match &self.pages[(a / PAGE) as usize] {
            Some(p) => p[(a % PAGE) as usize],
            None => 0,
        }
    }
    #[inline]
    pub fn wr8(&mut self, a: u64, v: u8) {
        let p = &mut self.pages[(a / PAGE) as usize];
        p.get_or_insert_with(|| Box::new([0; 4096]))[(a % PAGE) as usize] = v;
    }
    pub fn in_bounds(&self, a: u64, n: u64) -> bool {
        a < self.size && a.checked_add(n).map_or(false, |e| e <= self.size)
    }
    pub fn rd(&self, a: u64, n: u64) -> Result<u64, Trap> {
        if !self.in_bounds(a, n) {
            return Err(trap(Kind::Oob));
        }
        let mut v = 0u64;
        for k in 0..n {
            v |= (self.rd8(a + k) as u64) << (8 * k);
        }
        Ok(v)
    }
    /// Pages touched by [a, a+n), clipped to memory.
    fn any_flag(&self, a: u64, n: u64, want_exec: bool) -> bool {
        let mut p = a / PAGE;
        let last = a.saturating_add(n - 1) / PAGE;
        while p <= last && (p as usize) < self.flags.len() {
            if (self.flags[p as usize] & EXEC != 0) != want_exec {
                return true;
            }
            p += 1;
        }
        false
    }
    pub fn check_write(&self, a: u64, n: u64) -> Result<(), Trap> {
        let bad = a < self.size && self.any_flag(a, n, false);
        if !self.in_bounds(a, n) {
            return Err(Trap(if bad { vec![Kind::Oob, Kind::Perm] } else { vec![Kind::Oob] }));
        }
        if bad {
            return Err(trap(Kind::Perm));
        }
        Ok(())
    }
    pub fn mark_dirty(&mut self, a: u64, n: u64) {
        for p in a / PAGE..=(a + n - 1) / PAGE {
            self.flags[p as usize] |= DIRTY;
        }
    }
    pub fn wr(&mut self, a: u64, n: u64, v: u64) -> Result<(), Trap> {
        self.check_write(a, n)?;
        for k in 0..n {
            self.wr8(a + k, (v >> (8 * k)) as u8);
        }
        self.mark_dirty(a, n);
        Ok(())
    }
    pub fn wr_bytes(&mut self, a: u64, d: &[u8]) -> Result<(), Trap> {
        if d.is_empty() {
            return Ok(());
        }
        self.check_write(a, d.len() as u64)?;
        self.poke(a, d);
        self.mark_dirty(a, d.len() as u64);
        Ok(())
    }
    /// host-side write without permission checks or dirty tracking (harness set-up)
    pub fn poke(&mut self, a: u64, d: &[u8]) {
        let mut k = 0;
        while k < d.len() {
            let at = a + k as u64;
            let o = (at % PAGE) as usize;
            let n = (PAGE as usize - o).min(d.len() - k);
            let p = &mut self.pages[(at / PAGE) as usize];
            p.get_or_insert_with(|| Box::new([0; 4096]))[o..o + n].copy_from_slice(&d[k..k + n]);
            k += n;
        }
    }
    /// replace whole pages
    pub fn poke_pages(&mut self, a: u64, d: &[u8]) {
        for (k, c) in d.chunks(PAGE as usize).enumerate() {
            let p = (a / PAGE) as usize + k;
            if c.iter().all(|x| *x == 0) {
                self.pages[p] = None;
            } else {
                let mut b = Box::new([0u8; 4096]);
                b.copy_from_slice(c);
                self.pages[p] = Some(b);
            }
        }
    }
    /// Fetch of the instruction word at pc. The engines fetch 32 bits when they lie in one page.
    pub fn fetch(&self, pc: u64) -> Result<u32, Trap> {
        if pc >= self.size {
            return Err(trap(Kind::Oob));
        }
        let h = |a: u64| -> Result<u32, Trap> {
            let bad = a < self.size && self.any_flag(a, 2, true);
            if !self.in_bounds(a, 2) {
                return Err(Trap(if bad { vec![Kind::Oob, Kind::Perm] } else { vec![Kind::Oob] }));
            }
            if bad {
                return Err(trap(Kind::Perm));
            }
            Ok(self.rd8(a) as u32 | (self.rd8(a + 1) as u32) << 8)
        };
        let lo = h(pc)?;
        if lo & 3 != 3 {
            return Ok(lo);
        }
        Ok(lo | h(pc + 2)? << 16)
    }
    pub fn page(&self, p: u64) -> Vec<u8> {
        match &self.pages[p as usize] {
            Some(x) => x.to_vec(),
            None => vec![0; 4096],
        }
    }
}

#[derive(Clone)]
pub struct Spec {
    pub c: Cfg,
    pub x: [u64; 32],
    pub pc: u64,
    pub mem: SMem,
    pub lr: u64,
    pub cycles: u64,
    pub max_cycles: u64,
    pub running: bool,
    pub exit: i8,
    /// registers that a trapping instruction may or may not have written
    pub trap_rd: u8,
    pub ecall: EcallModel,
    pub log: Vec<u64>,
    pub steps: u64,
    /// installed handlers and debugger (see host.rs), shared with the engines
    pub hooks: Vec<crate::eng::Hook>,
    pub dbg: Option<crate::eng::Hook>,
}

/// What the host does on ecall/ebreak in the model.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum EcallModel {
    /// a7=93 exits; every other number is unknown
    Plain,
    /// in addition a7=64 is a known call: it logs a0 and returns a0+1 in a0
    Log,
    /// a family of calls exercising everything a handler may do (see eng::rich)
    Rich,
}

/// A position in the code.
pub struct At {
    pub c: Cfg,
    pub pc: u64,
}
impl At {
    pub fn fetch_decode(&self, m: &SMem) -> Result<SI, Trap> {
        let w = m.fetch(self.pc)?;
        decode(w, self.c).ok_or(trap(Kind::Inval))
    }
}
impl Op {
    /// control leaves the straight line here
    pub fn ends_block(self) -> bool {
        use Op::*;
        matches!(self, JAL | JALR | BEQ | BNE | BLT | BGE | BLTU | BGEU | ECALL | EBREAK | FENCEI)
    }
}

pub enum Step {
    Ok,
    Exit,
}

impl Spec {
    pub fn new(c: Cfg, size: u64) -> Spec {
        Spec {
            c,
            x: [0; 32],
            pc: 0,
            mem: SMem::new(size),
            lr: if c.xlen == 64 { u64::MAX } else { u32::MAX as u64 },
            cycles: 0,
            max_cycles: u64::MAX,
            running: true,
            exit: 0,
            trap_rd: 0,
            ecall: EcallModel::Plain,
            log: vec![],
            steps: 0,
            hooks: vec![],
            dbg: None,
        }
    }
    #[inline]
    pub fn m(&self, v: u64) -> u64 {
        if self.c.xlen == 64 {
            v
        } else {
            v & 0xffff_ffff
        }
    }
    /// signed view of a register value
    #[inline]
    fn sg(&self, v: u64) -> i64 {
        if self.c.xlen == 64 {
            v as i64
        } else {
            v as u32 as i32 as i64
        }
    }
    pub fn wr(&mut self, rd: u8, v: u64) {
        if rd != 0 {
            self.x[rd as usize] = self.m(v);
        }
    }

    /// Execute one decoded instruction at self.pc. On Err the architectural state other than
    /// `trap_rd` is unchanged.
    pub fn exec(&mut self, i: SI) -> Result<(), Trap> {
        use Op::*;
        let xl = self.c.xlen;
        let a = self.x[i.rs1 as usize];
        let b = self.x[i.rs2 as usize];
        let (sa, sb) = (self.sg(a), self.sg(b));
        let next = self.m(self.pc.wrapping_add(i.len as u64));
        let mut npc = next;
        let immu = self.m(i.imm as u64);
        let w = |v: u64| v as u32 as i32 as i64 as u64; // sign-extended word
        self.trap_rd = 0;
        let shm = (xl - 1) as u64;
        let ones: u64 = if xl == 64 { u64::MAX } else { u32::MAX as u64 };
        let val: Option<u64> = match i.op {
            LUI => Some(i.imm as u64),
            AUIPC => Some(self.pc.wrapping_add(i.imm as u64)),
            JAL => {
                npc = self.m(self.pc.wrapping_add(i.imm as u64));
                Some(next)
            }
            JALR => {
                // version 0 writes the link register before reading rs1
                let base = if self.c.version == 0 && i.rd == i.rs1 && i.rd != 0 { next } else { a };
                npc = self.m(base.wrapping_add(i.imm as u64)) & !1;
                Some(next)
            }
            BEQ | BNE | BLT | BGE | BLTU | BGEU => {
                let t = match i.op {
                    BEQ => a == b,
                    BNE => a != b,
                    BLT => sa < sb,
                    BGE => sa >= sb,
                    BLTU => a < b,
                    _ => a >= b,
                };
                if t {
                    npc = self.m(self.pc.wrapping_add(i.imm as u64));
                }
                None
            }
            LB | LH | LW | LBU | LHU | LWU | LD => {
                let n = match i.op { LB | LBU => 1, LH | LHU => 2, LW | LWU => 4, _ => 8 };
                let ad = self.m(a.wrapping_add(i.imm as u64));
                self.trap_rd = i.rd;
                // version 0 cannot read the last byte of memory
                if self.c.version == 0 && ad.checked_add(n) == Some(self.mem.size) {
                    return Err(trap(Kind::Oob));
                }
                let v = self.mem.rd(ad, n)?;
                Some(match i.op {
                    LB => v as u8 as i8 as i64 as u64,
                    LH => v as u16 as i16 as i64 as u64,
                    LW => w(v),
                    _ => v,
                })
            }
            SB | SH | SW | SD => {
                let n = match i.op { SB => 1, SH => 2, SW => 4, _ => 8 };
                let ad = self.m(a.wrapping_add(i.imm as u64));
                self.mem.wr(ad, n, b)?;
                None
            }
            ADDI => Some(a.wrapping_add(i.imm as u64)),
            SLTI => Some((sa < i.imm) as u64),
            SLTIU => Some((a < immu) as u64),
            XORI => Some(a ^ i.imm as u64),
            ORI => Some(a | i.imm as u64),
            ANDI => Some(a & i.imm as u64),
            SLLI => Some(a << i.imm),
            SRLI => Some(a >> i.imm),
            SRAI => Some((sa >> i.imm) as u64),
            ADD => Some(a.wrapping_add(b)),
            SUB => Some(a.wrapping_sub(b)),
            SLL => Some(a << (b & shm)),
            SLT => Some((sa < sb) as u64),
            SLTU => Some((a < b) as u64),
            XOR => Some(a ^ b),
            SRL => Some(a >> (b & shm)),
            SRA => Some((sa >> (b & shm)) as u64),
            OR => Some(a | b),
            AND => Some(a & b),
            FENCE | FENCEI => None,
            ECALL | EBREAK => unreachable!(),
            ADDIW => Some(w(a.wrapping_add(i.imm as u64))),
            SLLIW => Some(w(((a as u32) << i.imm) as u64)),
            SRLIW => Some(w(((a as u32) >> i.imm) as u64)),
            SRAIW => Some(((a as u32 as i32) >> i.imm) as i64 as u64),
            ADDW => Some(w(a.wrapping_add(b))),
            SUBW => Some(w(a.wrapping_sub(b))),
            SLLW => Some(w(((a as u32) << (b & 31)) as u64)),
            SRLW => Some(w(((a as u32) >> (b & 31)) as u64)),
            SRAW => Some(((a as u32 as i32) >> (b & 31)) as i64 as u64),
            MUL => Some(a.wrapping_mul(b)),
            MULH => Some(((sa as i128 * sb as i128) >> xl) as u64),
            MULHSU => Some(((sa as i128 * b as i128) >> xl) as u64),
            MULHU => Some(((a as u128 * b as u128) >> xl) as u64),
            DIV => Some(if sb == 0 { u64::MAX } else { sa.wrapping_div(sb) as u64 }),
            DIVU => Some(if b == 0 { u64::MAX } else { a / b }),
            REM => Some(if sb == 0 { a } else { sa.wrapping_rem(sb) as u64 }),
            REMU => Some(if b == 0 { a } else { a % b }),
            MULW => Some(w(a.wrapping_mul(b))),
            DIVW => {
                let (p, q) = (a as i32, b as i32);
                Some(if q == 0 { u64::MAX } else { p.wrapping_div(q) as i64 as u64 })
            }
            DIVUW => {
                let (p, q) = (a as u32, b as u32);
                Some(if q == 0 { u64::MAX } else { w((p / q) as u64) })
            }
            REMW => {
                let (p, q) = (a as i32, b as i32);
                Some(if q == 0 { p as i64 as u64 } else { p.wrapping_rem(q) as i64 as u64 })
            }
            REMUW => {
                let (p, q) = (a as u32, b as u32);
                Some(if q == 0 { w(p as u64) } else { w((p % q) as u64) })
            }
            ADDUW => Some((a as u32 as u64).wrapping_add(b)),
            SH1ADDUW => Some(((a as u32 as u64) << 1).wrapping_add(b)),
            SH2ADDUW => Some(((a as u32 as u64) << 2).wrapping_add(b)),
            SH3ADDUW => Some(((a as u32 as u64) << 3).wrapping_add(b)),
            SH1ADD => Some((a << 1).wrapping_add(b)),
            SH2ADD => Some((a << 2).wrapping_add(b)),
            SH3ADD => Some((a << 3).wrapping_add(b)),
            ZEXTH => Some(a & 0xffff),
            ROLW => Some(w((a as u32).rotate_left(b as u32 & 31) as u64)),
            RORW => Some(w((a as u32).rotate_right(b as u32 & 31) as u64)),
            RORIW => Some(w((a as u32).rotate_right(i.imm as u32) as u64)),
            SLLIUW => Some((a as u32 as u64) << i.imm),
            ANDN => Some(a & !b),
            ORN => Some(a | !b),
            XNOR => Some(!(a ^ b)),
            ROL => Some(if xl == 64 { a.rotate_left((b & 63) as u32) } else { (a as u32).rotate_left((b & 31) as u32) as u64 }),
            ROR => Some(if xl == 64 { a.rotate_right((b & 63) as u32) } else { (a as u32).rotate_right((b & 31) as u32) as u64 }),
            RORI => Some(if xl == 64 { a.rotate_right(i.imm as u32) } else { (a as u32).rotate_right(i.imm as u32) as u64 }),
            BINV => Some(a ^ 1 << (b & shm)),
            BSET => Some(a | 1 << (b & shm)),
            BCLR => Some(a & !(1 << (b & shm))),
            BEXT => Some(a >> (b & shm) & 1),
            BINVI => Some(a ^ 1 << i.imm),
            BSETI => Some(a | 1 << i.imm),
            BCLRI => Some(a & !(1 << i.imm)),
            BEXTI => Some(a >> i.imm & 1),
            CLMUL | CLMULH | CLMULR => {
                let mut p: u128 = 0;
                for k in 0..xl {
                    if b >> k & 1 == 1 {
                        p ^= (a as u128) << k;
                    }
                }
                Some(match i.op {
                    CLMUL => p as u64,
                    CLMULH => (p >> xl) as u64,
                    _ => (p >> (xl - 1)) as u64,
                })
            }
            MIN => Some(if sa < sb { a } else { b }),
            MAX => Some(if sa < sb { b } else { a }),
            MINU => Some(a.min(b)),
            MAXU => Some(a.max(b)),
            ORCB => {
                let mut v = 0u64;
                for k in 0..8 {
                    if (a >> (8 * k)) & 0xff != 0 {
                        v |= 0xff << (8 * k);
                    }
                }
                Some(v)
            }
            REV8 => Some(if xl == 64 { a.swap_bytes() } else { (a as u32).swap_bytes() as u64 }),
            CLZ => Some(a.leading_zeros() as u64 - (64 - xl as u64)),
            CTZ => Some((a.trailing_zeros() as u64).min(xl as u64)),
            CPOP => Some(a.count_ones() as u64),
            CLZW => Some((a as u32).leading_zeros() as u64),
            CTZW => Some((a as u32).trailing_zeros() as u64),
            CPOPW => Some((a as u32).count_ones() as u64),
            SEXTB => Some(a as u8 as i8 as i64 as u64),
            SEXTH => Some(a as u16 as i16 as i64 as u64),
            LR_W | LR_D => {
                let n = if i.op == LR_W { 4 } else { 8 };
                self.trap_rd = i.rd;
                let v = self.mem.rd(a, n)?;
                self.lr = a;
                Some(if n == 4 { w(v) } else { v })
            }
            SC_W | SC_D => {
                // A failing SC stores the old value back: same permission rule, memory unchanged.
                let n = if i.op == SC_W { 4 } else { 8 };
                self.trap_rd = i.rd;
                let ok = self.lr == a;
                let old = self.mem.rd(a, n).map_err(|e| self.mem.check_write(a, n).err().unwrap_or(e))?;
                self.mem.wr(a, n, if ok { b } else { old })?;
                self.lr = ones;
                Some(!ok as u64)
            }
            _ => {
                // AMOs
                let w32 = (i.op as u8) < (LR_D as u8);
                let n = if w32 { 4 } else { 8 };
                self.trap_rd = i.rd;
                let old = self.mem.rd(a, n).map_err(|e| self.mem.check_write(a, n).err().unwrap_or(e))?;
                let (o, bb) = if w32 { (w(old), w(b)) } else { (old, b) };
                let new = match i.op {
                    AMOSWAP_W | AMOSWAP_D => b,
                    AMOADD_W | AMOADD_D => o.wrapping_add(b),
                    AMOXOR_W | AMOXOR_D => o ^ b,
                    AMOAND_W | AMOAND_D => o & b,
                    AMOOR_W | AMOOR_D => o | b,
                    AMOMIN_W | AMOMIN_D => (o as i64).min(bb as i64) as u64,
                    AMOMAX_W | AMOMAX_D => (o as i64).max(bb as i64) as u64,
                    AMOMINU_W | AMOMINU_D => if w32 { (o as u32).min(bb as u32) as u64 } else { o.min(bb) },
                    AMOMAXU_W | AMOMAXU_D => if w32 { (o as u32).max(bb as u32) as u64 } else { o.max(bb) },
                    _ => unreachable!("{:?}", i.op),
                };
                self.mem.wr(a, n, new)?;
                Some(o)
            }
        };
        if let Some(v) = val {
            self.wr(i.rd, v);
        }
        self.pc = npc;
        Ok(())
    }

    pub fn fetch_decode(&self) -> Result<SI, Trap> {
        let w = self.mem.fetch(self.pc)?;
        decode(w, self.c).ok_or(trap(Kind::Inval))
    }
    pub fn clone_shallow(&self) -> At {
        At { c: self.c, pc: self.pc }
    }

    fn rich(&mut self) -> Result<Step, Trap> {
        let (n, a0, a1) = (self.x[17], self.x[10], self.x[11]);
        let mut npc = self.m(self.pc.wrapping_add(4));
        self.trap_rd = 0;
        match n {
            64 => {
                self.log.push(a0);
                self.wr(10, a0.wrapping_add(1));
            }
            65 => self.cycles = self.cycles.checked_add(a0).ok_or(trap(Kind::CyclesOverflow))?,
            66 => {
                let c = self.cycles.checked_add(a0).ok_or(trap(Kind::CyclesOverflow))?;
                if c > self.max_cycles {
                    return Err(trap(Kind::Cycles));
                }
                self.cycles = c;
            }
            67 => return Err(trap(Kind::Ext)),
            68 => {
                self.wr(5, a0.wrapping_mul(3));
                self.wr(17, 64);
            }
            69 => self.mem.wr(a1, 4, 0x0506_0708)?,
            70 => {
                let v = self.mem.rd(a1, 4)?;
                self.wr(6, v);
            }
            71 => self.running = false,
            72 => npc = a1,
            73 => self.wr(10, a0.wrapping_add(2)),
            _ => return Err(trap(Kind::Ecall)),
        }
        self.pc = npc;
        if self.cycles > self.max_cycles {
            return Err(trap(Kind::Cycles));
        }
        Ok(if self.running { Step::Ok } else { Step::Exit })
    }

    /// One architectural step. `stop_on_ebreak`: the host's debugger stops the machine.
    pub fn step(&mut self, cost: &dyn Fn(&SI) -> u64, stop_on_ebreak: bool) -> Result<Step, Trap> {
        let i = self.fetch_decode()?;
        let nc = self.cycles.checked_add(cost(&i)).ok_or(trap(Kind::CyclesOverflow))?;
        if nc > self.max_cycles {
            return Err(trap(Kind::Cycles));
        }
        self.cycles = nc;
        self.steps += 1;
        match i.op {
            Op::ECALL => {
                let n = self.x[17];
                if n == 93 {
                    self.pc = self.m(self.pc.wrapping_add(4));
                    self.running = false;
                    self.exit = self.x[10] as i8;
                    return Ok(Step::Exit);
                }
                if !self.hooks.is_empty() {
                    return self.hooked_call();
                }
                if self.ecall == EcallModel::Log && n == 64 {
                    let a0 = self.x[10];
                    self.log.push(a0);
                    self.wr(10, a0.wrapping_add(1));
                    self.pc = self.m(self.pc.wrapping_add(4));
                    return Ok(Step::Ok);
                }
                if self.ecall == EcallModel::Rich {
                    return self.rich();
                }
                Err(trap(Kind::Ecall))
            }
            Op::EBREAK if self.dbg.is_some() && !stop_on_ebreak => self.hooked_break(i.len as u64),
            Op::EBREAK => {
                self.pc = self.m(self.pc.wrapping_add(i.len as u64));
                if stop_on_ebreak {
                    self.running = false;
                    return Ok(Step::Exit);
                }
                Ok(Step::Ok)
            }
            _ => {
                self.exec(i)?;
                Ok(Step::Ok)
            }
        }
    }

    /// Run to exit / trap, at most `fuel` steps (None = out of fuel).
    pub fn run(&mut self, cost: &dyn Fn(&SI) -> u64, stop_on_ebreak: bool, fuel: u64) -> Option<Result<i8, Trap>> {
        self.running = true;
        for _ in 0..fuel {
            match self.step(cost, stop_on_ebreak) {
                Ok(Step::Ok) => {}
                Ok(Step::Exit) => return Some(Ok(self.exit)),
                Err(t) => return Some(Err(t)),
            }
        }
        None
    }
}

/// Default cost function used by the harness, by operation.
pub fn cost_of(op: Op) -> u64 {
    1 + (op as u64 * 7 + 3) % 5
}
