//! C18: packed and tagged instruction forms, their text, and every register representation.
use crate::asmb::*;
use crate::c02::{to_si, WordMem};
use crate::common::*;
use crate::eng::{base_name, op_table};
use crate::fw::*;
use crate::spec::*;
use ckb_vm::bits::{rounddown, roundup};
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::instructions::ast::{ActionOp1, ActionOp2, SignActionOp2, Value};
use ckb_vm::instructions::tagged::TaggedInstruction;
use ckb_vm::instructions::{
    blank_instruction, execute, extract_opcode, insts, instruction_length, instruction_opcode_name, is_basic_block_end_instruction, is_slowpath_instruction, set_instruction_length_2,
    set_instruction_length_4, set_instruction_length_n, Itype, R4type, R5type, Rtype, Stype, Utype,
};
use ckb_vm::{Bytes, CoreMachine, DefaultCoreMachine, Error, Machine, Memory, Register, DefaultMachineBuilder, SparseMemory, SupportMachine};
use std::convert::TryFrom;

/// The dump of a machine names every register, and the program counter, with its value.
fn dump<R: Register>(bits: u32, at: usize, v: u64) -> Result<(), String> {
    let mask = if bits == 64 { u64::MAX } else { 0xffff_ffff };
    let mut m = DefaultMachineBuilder::new(DefaultCoreMachine::<R, SparseMemory<R>>::new_with_memory(0, 2, 0, SparseMemory::new_with_memory(4096))).build();
    let mut val = [0u64; 33];
    for i in 1..33 {
        val[i] = if i == at { v & mask } else { (0x0123_4567_89ab_cdefu64.rotate_left(2 * i as u32) ^ i as u64) & mask };
        if i < 32 {
            m.set_register(i, R::from_u64(val[i]));
        }
    }
    m.update_pc(R::from_u64(val[32]));
    m.commit_pc();
    let text = format!("{}", m);
    // entries look like "name: 0xVALUE", in any order and with any spacing
    let mut got = std::collections::BTreeMap::new();
    let words: Vec<&str> = text.split(|c: char| c.is_whitespace() || c == ':').filter(|s| !s.is_empty()).collect();
    let mut name = "";
    let mut acc = String::new();
    for w in words.iter().chain([&"pc"]) {
        if *w == "pc" || ABI.contains(w) {
            if !name.is_empty() {
                got.insert(name, u64::from_str_radix(acc.trim_start_matches("0x"), 16).map_err(|e| format!("{:?} of {}: {}", acc, name, e))?);
            }
            name = w;
            acc.clear();
        } else {
            acc.push_str(w);
        }
    }
    for i in 0..33 {
        let n = if i == 32 { "pc" } else { ABI[i] };
        if got.get(n) != Some(&val[i]) {
            return Err(format!("rv{} dump gives {:x?} for {}, holding {:#x}:\n{}", bits, got.get(n), n, val[i], text));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- register arithmetic
const ABI: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6",
];

/// Two-operand register operations; the shifts are only defined below the width.
const B2: &[&str] = &[
    "eq", "ne", "lt", "lt_s", "ge", "ge_s", "add", "sub", "mul", "div", "rem", "div_s", "rem_s", "mulh", "mulhu", "mulhsu", "clmul", "clmulh", "clmulr", "and", "or", "xor", "shl", "shr", "sshl", "sshr", "rol",
    "ror", "zext", "sext", "cond0", "cond1",
];
const U1: &[&str] = &["not", "clz", "ctz", "cpop", "orcb", "rev8"];
fn domain(op: &str, w: u32, b: u64) -> bool {
    match op {
        "shl" | "shr" | "sshl" | "sshr" | "rol" | "ror" => b < w as u64,
        "zext" | "sext" => b > 0,
        _ => true,
    }
}
fn app2<R: Register>(op: &str, a: &R, b: &R) -> R {
    match op {
        "eq" => Register::eq(a, b),
        "ne" => Register::ne(a, b),
        "lt" => Register::lt(a, b),
        "lt_s" => a.lt_s(b),
        "ge" => Register::ge(a, b),
        "ge_s" => a.ge_s(b),
        "add" => a.overflowing_add(b),
        "sub" => a.overflowing_sub(b),
        "mul" => a.overflowing_mul(b),
        "div" => a.overflowing_div(b),
        "rem" => a.overflowing_rem(b),
        "div_s" => a.overflowing_div_signed(b),
        "rem_s" => a.overflowing_rem_signed(b),
        "mulh" => a.overflowing_mul_high_signed(b),
        "mulhu" => a.overflowing_mul_high_unsigned(b),
        "mulhsu" => a.overflowing_mul_high_signed_unsigned(b),
        "clmul" => a.clmul(b),
        "clmulh" => a.clmulh(b),
        "clmulr" => a.clmulr(b),
        "and" => a.clone() & b.clone(),
        "or" => a.clone() | b.clone(),
        "xor" => a.clone() ^ b.clone(),
        "shl" => a.clone() << b.clone(),
        "shr" => a.clone() >> b.clone(),
        "sshl" => a.signed_shl(b),
        "sshr" => a.signed_shr(b),
        "rol" => a.rol(b),
        "ror" => a.ror(b),
        "zext" => a.zero_extend(b),
        "sext" => a.sign_extend(b),
        "cond0" => R::zero().cond(a, b),
        "cond1" => R::one().cond(a, b),
        _ => unreachable!(),
    }
}
fn app1<R: Register>(op: &str, a: &R) -> R {
    match op {
        "not" => !a.clone(),
        "clz" => a.clz(),
        "ctz" => a.ctz(),
        "cpop" => a.cpop(),
        "orcb" => a.orcb(),
        "rev8" => a.rev8(),
        _ => unreachable!(),
    }
}
/// The same operations on plain integers of width w, from their definitions.
fn ref2(op: &str, w: u32, a: u64, b: u64) -> u64 {
    let m: u128 = (1u128 << w) - 1;
    let (ua, ub) = (a as u128, b as u128);
    let s = |v: u64| -> i128 {
        if v >> (w - 1) & 1 == 1 {
            v as i128 - (1i128 << w)
        } else {
            v as i128
        }
    };
    let (ia, ib) = (s(a), s(b));
    let t = |x: bool| x as u128;
    let cl = || -> u128 {
        // carry-less product, 2w bits
        let mut r = 0u128;
        for i in 0..w {
            if b >> i & 1 == 1 {
                r ^= ua << i;
            }
        }
        r
    };
    let v: u128 = match op {
        "eq" => t(a == b),
        "ne" => t(a != b),
        "lt" => t(a < b),
        "lt_s" => t(ia < ib),
        "ge" => t(a >= b),
        "ge_s" => t(ia >= ib),
        "add" => ua + ub,
        "sub" => (ia - ib) as u128,
        "mul" => ua.wrapping_mul(ub),
        "div" => if b == 0 { m } else { ua / ub },
        "rem" => if b == 0 { ua } else { ua % ub },
        "div_s" => if b == 0 { m } else { (ia / ib) as u128 },
        "rem_s" => if b == 0 { ua } else { (ia % ib) as u128 },
        "mulh" => ((ia * ib) >> w) as u128,
        "mulhu" => (ua * ub) >> w,
        "mulhsu" => ((ia * b as i128) >> w) as u128,
        "clmul" => cl(),
        "clmulh" => cl() >> w,
        "clmulr" => cl() >> (w - 1),
        "and" => ua & ub,
        "or" => ua | ub,
        "xor" => ua ^ ub,
        "shl" | "sshl" => ua << b,
        "shr" => ua >> b,
        "sshr" => (ia >> b) as u128,
        "rol" => ua << b | ua >> (w as u64 - b),
        "ror" => ua >> b | ua << (w as u64 - b),
        "zext" => if b >= w as u64 { ua } else { ua & ((1 << b) - 1) },
        "sext" => {
            if b >= w as u64 {
                ua
            } else if a >> (b - 1) & 1 == 1 {
                ua | !((1u128 << b) - 1)
            } else {
                ua & ((1 << b) - 1)
            }
        }
        "cond0" => ub,
        "cond1" => ua,
        _ => unreachable!(),
    };
    (v & m) as u64
}
fn ref1(op: &str, w: u32, a: u64) -> u64 {
    let bits: Vec<bool> = (0..w).map(|i| a >> i & 1 == 1).collect();
    match op {
        "not" => !a & if w == 64 { u64::MAX } else { 0xffff_ffff },
        "clz" => bits.iter().rev().take_while(|b| !**b).count() as u64,
        "ctz" => bits.iter().take_while(|b| !**b).count() as u64,
        "cpop" => bits.iter().filter(|b| **b).count() as u64,
        "orcb" => (0..w / 8).map(|k| if a >> (8 * k) & 0xff != 0 { 0xffu64 << (8 * k) } else { 0 }).sum(),
        "rev8" => (0..w / 8).map(|k| (a >> (8 * k) & 0xff) << (w - 8 - 8 * k)).sum(),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- symbolic registers
struct Env<'a> {
    x: &'a [u64; 32],
    lr: u64,
    mem: &'a dyn Fn(u64, u64) -> u64,
}
fn eval(v: &Value, e: &Env) -> u64 {
    match v {
        Value::Lr => e.lr,
        Value::Imm(i) => *i,
        Value::Register(r) => e.x[*r],
        Value::Op1(o, a) => {
            let a = eval(a, e);
            match o {
                ActionOp1::Not => !a,
                // only ever applied to the result of a comparison
                ActionOp1::LogicalNot => (a != 1) as u64,
                ActionOp1::Clz => ref1("clz", 64, a),
                ActionOp1::Ctz => ref1("ctz", 64, a),
                ActionOp1::Cpop => ref1("cpop", 64, a),
                ActionOp1::Orcb => ref1("orcb", 64, a),
                ActionOp1::Rev8 => ref1("rev8", 64, a),
            }
        }
        Value::Op2(o, a, b) => {
            let (a, b) = (eval(a, e), eval(b, e));
            let n = match o {
                ActionOp2::Add => "add",
                ActionOp2::Sub => "sub",
                ActionOp2::Mul => "mul",
                ActionOp2::Mulhsu => "mulhsu",
                ActionOp2::Bitand => "and",
                ActionOp2::Bitor => "or",
                ActionOp2::Bitxor => "xor",
                ActionOp2::Shl => "shl",
                ActionOp2::Eq => "eq",
                ActionOp2::Clmul => "clmul",
                ActionOp2::Clmulh => "clmulh",
                ActionOp2::Clmulr => "clmulr",
                ActionOp2::Rol => return a.rotate_left((b & 63) as u32),
                ActionOp2::Ror => return a.rotate_right((b & 63) as u32),
            };
            if n == "shl" && b > 63 {
                panic!("symbolic shift by {}", b);
            }
            ref2(n, 64, a, b)
        }
        Value::SignOp2(o, a, b, s) => {
            let (a, b) = (eval(a, e), eval(b, e));
            let n = match (o, s) {
                (SignActionOp2::Mulh, true) => "mulh",
                (SignActionOp2::Mulh, false) => "mulhu",
                (SignActionOp2::Div, true) => "div_s",
                (SignActionOp2::Div, false) => "div",
                (SignActionOp2::Rem, true) => "rem_s",
                (SignActionOp2::Rem, false) => "rem",
                (SignActionOp2::Shr, true) => "sshr",
                (SignActionOp2::Shr, false) => "shr",
                (SignActionOp2::Lt, true) => "lt_s",
                (SignActionOp2::Lt, false) => "lt",
                (SignActionOp2::Extend, true) => "sext",
                (SignActionOp2::Extend, false) => "zext",
            };
            if n.ends_with("shr") && b > 63 {
                panic!("symbolic shift by {}", b);
            }
            ref2(n, 64, a, b)
        }
        Value::Cond(c, t, f) => {
            // both arms are built; only the selected one counts
            if eval(c, e) == 1 {
                eval(t, e)
            } else {
                eval(f, e)
            }
        }
        Value::Load(a, n) => (e.mem)(eval(a, e), *n as u64),
        Value::External(v, _) => eval(v, e),
    }
}

/// A machine whose registers are expressions; loads become expressions, stores are recorded.
struct Sym {
    x: Vec<Value>,
    pc: Value,
    npc: Value,
    mem: SymMem,
}
struct SymMem {
    stores: Vec<(u64, Value, Value)>,
    lr: Value,
}
type R<T> = Result<T, Error>;
impl Memory for SymMem {
    type REG = Value;
    fn reset_memory(&mut self) -> R<()> {
        Ok(())
    }
    fn init_pages(&mut self, _a: u64, _s: u64, _f: u8, _d: Option<Bytes>, _o: u64) -> R<()> {
        Ok(())
    }
    fn fetch_flag(&mut self, _p: u64) -> R<u8> {
        Ok(0)
    }
    fn set_flag(&mut self, _p: u64, _f: u8) -> R<()> {
        Ok(())
    }
    fn clear_flag(&mut self, _p: u64, _f: u8) -> R<()> {
        Ok(())
    }
    fn memory_size(&self) -> usize {
        1 << 20
    }
    fn store_byte(&mut self, _a: u64, _s: u64, _v: u8) -> R<()> {
        Ok(())
    }
    fn store_bytes(&mut self, _a: u64, _v: &[u8]) -> R<()> {
        Ok(())
    }
    fn load_bytes(&mut self, _a: u64, _s: u64) -> R<Bytes> {
        Ok(Bytes::new())
    }
    fn execute_load16(&mut self, _a: u64) -> R<u16> {
        Ok(0)
    }
    fn execute_load32(&mut self, _a: u64) -> R<u32> {
        Ok(0)
    }
    fn load8(&mut self, a: &Value) -> R<Value> {
        Ok(Value::Load(a.clone().into(), 1))
    }
    fn load16(&mut self, a: &Value) -> R<Value> {
        Ok(Value::Load(a.clone().into(), 2))
    }
    fn load32(&mut self, a: &Value) -> R<Value> {
        Ok(Value::Load(a.clone().into(), 4))
    }
    fn load64(&mut self, a: &Value) -> R<Value> {
        Ok(Value::Load(a.clone().into(), 8))
    }
    fn store8(&mut self, a: &Value, v: &Value) -> R<()> {
        self.stores.push((1, a.clone(), v.clone()));
        Ok(())
    }
    fn store16(&mut self, a: &Value, v: &Value) -> R<()> {
        self.stores.push((2, a.clone(), v.clone()));
        Ok(())
    }
    fn store32(&mut self, a: &Value, v: &Value) -> R<()> {
        self.stores.push((4, a.clone(), v.clone()));
        Ok(())
    }
    fn store64(&mut self, a: &Value, v: &Value) -> R<()> {
        self.stores.push((8, a.clone(), v.clone()));
        Ok(())
    }
    fn lr(&self) -> &Value {
        &self.lr
    }
    fn set_lr(&mut self, v: &Value) {
        self.lr = v.clone();
    }
}
impl CoreMachine for Sym {
    type REG = Value;
    type MEM = SymMem;
    fn pc(&self) -> &Value {
        &self.pc
    }
    fn update_pc(&mut self, pc: Value) {
        self.npc = pc;
    }
    fn commit_pc(&mut self) {
        self.pc = self.npc.clone();
    }
    fn memory(&self) -> &SymMem {
        &self.mem
    }
    fn memory_mut(&mut self) -> &mut SymMem {
        &mut self.mem
    }
    fn registers(&self) -> &[Value] {
        &self.x
    }
    fn set_register(&mut self, i: usize, v: Value) {
        self.x[i] = v;
    }
    fn version(&self) -> u32 {
        2
    }
    fn isa(&self) -> u8 {
        7
    }
}
impl Machine for Sym {
    fn ecall(&mut self) -> R<()> {
        Ok(())
    }
    fn ebreak(&mut self) -> R<()> {
        Ok(())
    }
}
impl Sym {
    /// folded: registers are known constants, otherwise they are free.
    fn new(folded: Option<&[u64; 32]>, pc: u64) -> Sym {
        let x = (0..32)
            .map(|k| match folded {
                _ if k == 0 => Value::Imm(0),
                Some(x) => Value::Imm(x[k]),
                None => Value::Register(k),
            })
            .collect();
        Sym { x, pc: Value::Imm(pc), npc: Value::Imm(pc), mem: SymMem { stores: vec![], lr: Value::Lr } }
    }
    /// Compare the expressions, evaluated for these inputs, with the model after its step.
    fn check(&self, x: &[u64; 32], lr: u64, before: &SMem, s: &Spec) -> CaseRes {
        let rd = |a: u64, n: u64| (0..n).fold(0u64, |v, k| v | (before.rd8(a.wrapping_add(k)) as u64) << (8 * k));
        let e = Env { x, lr, mem: &rd };
        for k in 1..32 {
            let v = eval(&self.x[k], &e);
            if v != s.x[k] {
                return Err(format!("x{} = {:#x} instead of {:#x} (expression {:?})", k, v, s.x[k], self.x[k]));
            }
        }
        let pc = eval(&self.pc, &e);
        if pc != s.pc {
            return Err(format!("pc = {:#x} instead of {:#x}", pc, s.pc));
        }
        let l = eval(&self.mem.lr, &e);
        if l != s.lr {
            return Err(format!("reservation {:#x} instead of {:#x}", l, s.lr));
        }
        for k in 0..64u64 {
            let a = DATA - 32 + k;
            let mut b = before.rd8(a);
            for (n, ad, v) in &self.mem.stores {
                let ad = eval(ad, &e);
                if a.wrapping_sub(ad) < *n {
                    b = (eval(v, &e) >> (8 * (a - ad))) as u8;
                }
            }
            if b != s.mem.rd8(a) {
                return Err(format!("memory byte {:#x} = {:#x} instead of {:#x}", a, b, s.mem.rd8(a)));
            }
        }
        Ok(())
    }
}
const DATA: u64 = 0x8800;
const PC: u64 = 0x1_0000;

// ---------------------------------------------------------------- packed words
/// (op, first register byte, [bytes 4..8]) read from the documented layout of the word.
fn op_of(w: u64) -> u16 {
    ((w >> 16 & 0xff) << 8 | (w & 0xff)) as u16
}
fn tokens(t: &str) -> Vec<String> {
    t.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '.')).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
}
fn lengths(w: u64, op: u16, rest: impl Fn(u64) -> bool) -> CaseRes {
    let chk = |v: u64, n: u8| -> CaseRes {
        if instruction_length(v) != n || extract_opcode(v) != op || !rest(v) {
            return Err(format!("word {:#018x} with length {}: length {} opcode {:#x} fields kept: {}", v, n, instruction_length(v), extract_opcode(v), rest(v)));
        }
        Ok(())
    };
    if extract_opcode(w) != op || op_of(w) != op {
        return Err(format!("word {:#018x}: opcode {:#x} instead of {:#x}", w, extract_opcode(w), op));
    }
    chk(set_instruction_length_2(w), 2)?;
    chk(set_instruction_length_4(w), 4)?;
    for n in (2..=30u8).step_by(2) {
        chk(set_instruction_length_n(w, n), n)?;
    }
    Ok(())
}

struct W {
    d: Decoder,
    mop: Decoder,
    m: WordMem,
    pc: u64,
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    r.bound("packing: every opcode (and every 16-bit opcode value in the thorough tier for R), all 32^3 register triples, all 12/13-bit immediates and +-2^k+-1 up to 24 (I/S) and 32 (U) bits, every even length up to 30; R4/R5: all values of each pair of registers");
    r.bound("tagged view and text: every encodable instruction over all register pairs/triples and all immediates of its format, and every fused instruction the decoder produces");
    r.bound("register arithmetic: u32, u64 and symbolic values, every operation over the full square of boundary values, every 2^k and its neighbours, all pairs of single-byte patterns at all byte positions");
    r.bound("instruction handlers on symbolic registers (rv64, all extensions): every instruction x 10 aliasing patterns x boundary values, evaluated and compared with the model");
    r.assume("shift amounts below the width (what every handler guarantees), start bits above 0; version 0 loads need concrete addresses and are not run symbolically");
    let ops: Vec<u16> = (insts::MINIMAL_OPCODE..=insts::MAXIMUM_OPCODE).collect();
    let nops = ops.len() as u64;

    // ---- packing
    let regpat: Vec<usize> = vec![0, 1, 2, 8, 15, 16, 31];
    r.phase("pack registers", nops * 32, 4, || (), |_, i, st| {
        let op = ops[(i / 32) as usize];
        let rd = (i % 32) as usize;
        if blank_instruction(op) != (op as u64 >> 8) << 16 | op as u64 & 0xff {
            return Err(format!("blank word of {:#x}", op));
        }
        for a in 0..32 {
            for b in 0..32 {
                let w = Rtype::new(op, rd, a, b).0;
                let f = |v: u64| {
                    let t = Rtype(v);
                    (t.op(), t.rd(), t.rs1(), t.rs2()) == (op, rd, a, b)
                };
                if !f(w) {
                    return Err(format!("Rtype({:#x},{},{},{}) reads back as {:#x},{},{},{}", op, rd, a, b, Rtype(w).op(), Rtype(w).rd(), Rtype(w).rs1(), Rtype(w).rs2()));
                }
                lengths(w, op, f)?;
                for &c in &regpat {
                    let w = R4type::new(op, rd, a, b, c).0;
                    let f = |v: u64| {
                        let t = R4type(v);
                        (t.op(), t.rd(), t.rs1(), t.rs2(), t.rs3()) == (op, rd, a, b, c)
                    };
                    if !f(w) {
                        return Err(format!("R4type({:#x},{},{},{},{}) does not read back: {:#018x}", op, rd, a, b, c, w));
                    }
                    let w = R4type::new(op, a, b, c, rd).0;
                    if (R4type(w).rd(), R4type(w).rs1(), R4type(w).rs2(), R4type(w).rs3()) != (a, b, c, rd) {
                        return Err(format!("R4type({:#x},{},{},{},{}) does not read back: {:#018x}", op, a, b, c, rd, w));
                    }
                    lengths(w, op, |v| (R4type(v).rd(), R4type(v).rs1(), R4type(v).rs2(), R4type(v).rs3()) == (a, b, c, rd))?;
                    let w = R5type::new(op, rd, c, a, 31 - c, b).0;
                    let f = |v: u64| {
                        let t = R5type(v);
                        (t.op(), t.rd(), t.rs1(), t.rs2(), t.rs3(), t.rs4()) == (op, rd, c, a, 31 - c, b)
                    };
                    if !f(w) {
                        return Err(format!("R5type({:#x},{},{},{},{},{}) does not read back: {:#018x}", op, rd, c, a, 31 - c, b, w));
                    }
                    lengths(w, op, f)?;
                }
            }
        }
        st.states += 1024;
        st.transitions += 1024 * (1 + 3 * regpat.len() as u64);
        st.traces += 1024 * (1 + 3 * regpat.len() as u64);
        Ok(())
    });
    let imm_alpha = |bits: u32| -> Vec<i32> {
        let mut v: Vec<i32> = (-4096..4096).collect();
        for k in 12..bits {
            for d in [-1i64, 0, 1] {
                for s in [1i64, -1] {
                    let x = s * (1i64 << k) + d;
                    if x >= -(1i64 << (bits - 1)) && x < 1i64 << (bits - 1) {
                        v.push(x as i32);
                    }
                }
            }
        }
        v.push((-(1i64 << (bits - 1))) as i32);
        v.push(((1i64 << (bits - 1)) - 1) as i32);
        v
    };
    let i24 = imm_alpha(24);
    let i32s = imm_alpha(32);
    r.phase("pack immediates", nops * 32, 4, || (), |_, i, st| {
        let op = ops[(i / 32) as usize];
        let rd = (i % 32) as usize;
        let regs: Vec<usize> = if q { vec![0, 1, 31 - rd, (rd * 7 + 5) % 32] } else { (0..32).collect() };
        for &a in &regs {
            for &im in &i24 {
                let w = Itype::new_s(op, rd, a, im).0;
                let f = |v: u64| {
                    let t = Itype(v);
                    (t.op(), t.rd(), t.rs1(), t.immediate_s(), t.immediate_u()) == (op, rd, a, im, im as u32)
                };
                if !f(w) || Itype::new_u(op, rd, a, im as u32).0 != w {
                    return Err(format!("Itype({:#x},{},{},{}) does not read back: {:#018x}", op, rd, a, im, w));
                }
                let w2 = Stype::new_s(op, im, a, rd).0;
                let f2 = |v: u64| {
                    let t = Stype(v);
                    (t.op(), t.rs2(), t.rs1(), t.immediate_s(), t.immediate_u()) == (op, rd, a, im, im as u32)
                };
                if !f2(w2) || Stype::new_u(op, im as u32, a, rd).0 != w2 {
                    return Err(format!("Stype({:#x},{},{},{}) does not read back: {:#018x}", op, im, a, rd, w2));
                }
                if im & 63 == 5 || !(-2048..2048).contains(&im) {
                    lengths(w, op, f)?;
                    lengths(w2, op, f2)?;
                }
            }
        }
        for &im in &i32s {
            let w = Utype::new_s(op, rd, im).0;
            let f = |v: u64| {
                let t = Utype(v);
                (t.op(), t.rd(), t.immediate_s(), t.immediate_u()) == (op, rd, im, im as u32)
            };
            if !f(w) || Utype::new(op, rd, im as u32).0 != w {
                return Err(format!("Utype({:#x},{},{}) does not read back: {:#018x}", op, rd, im, w));
            }
            lengths(w, op, f)?;
        }
        let n = regs.len() as u64 * i24.len() as u64 + i32s.len() as u64;
        st.states += n;
        st.transitions += n;
        st.traces += n;
        Ok(())
    });
    // ---- opcode names and classes
    r.phase("opcodes", 1 << 16, 4096, || (), |_, i, st| {
        let op = i as u16;
        let w = blank_instruction(op);
        let known = op >= insts::MINIMAL_OPCODE && op <= insts::MAXIMUM_OPCODE;
        if extract_opcode(w) != op {
            return Err(format!("blank word of {:#x} has opcode {:#x}", op, extract_opcode(w)));
        }
        if TaggedInstruction::try_from(w).is_ok() != known {
            return Err(format!("opcode {:#x}: tagged view {:?}", op, TaggedInstruction::try_from(w)));
        }
        if known {
            for o in ops.iter() {
                if *o != op && instruction_opcode_name(*o) == instruction_opcode_name(op) {
                    return Err(format!("opcodes {:#x} and {:#x} share a name", op, o));
                }
            }
            if is_slowpath_instruction(w) {
                return Err(format!("opcode {:#x} is not a fast path opcode", op));
            }
            if let Some(o) = op_table()[op as usize] {
                if (o.ends_block() && o != Op::FENCEI) && !is_basic_block_end_instruction(w) {
                    return Err(format!("{:?} does not end a basic block", o));
                }
            }
        }
        st.states += 1;
        st.transitions += 1;
        st.traces += 1;
        Ok(())
    });
    // ---- tagged view and text of decoded instructions
    let eops: Vec<(Op, u32)> = ALL_OPS.iter().flat_map(|o| [0u32, 1, 2].map(|v| (*o, v))).collect();
    let mkd = |v: u32| W { d: build_decoder::<u64>(ISA_B | ISA_A, v), mop: build_decoder::<u64>(7, v.max(1)), m: WordMem { w: 0, next: 0x0010_0073 }, pc: 0 };
    r.phase("tagged", eops.len() as u64 * 32, 4, || [mkd(0), mkd(1), mkd(2)], |ws, i, st| {
        let (op, version) = eops[(i / 32) as usize];
        let rd = (i % 32) as u32;
        let w = &mut ws[version as usize];
        let f = form(op).0;
        let mut one = |word: u32, st: &mut Stats| -> CaseRes {
            let want = match decode(word, Cfg { xlen: 64, isa: ISA_A | ISA_B, version }) {
                Some(s) => s,
                None => return Ok(()),
            };
            w.m.w = word;
            w.pc = (w.pc + 8) & 0xffff_ffff;
            let got = w.d.decode(&mut w.m, w.pc).map_err(|e| format!("word {:#010x}: {:?}", word, e))?;
            if to_si(got).map(canon) != Some(canon(want)) || to_si(got).map_or(true, |s| s.op != op) {
                // judged by C02 (no-op forms may decode differently)
                return Ok(());
            }
            tag_check(got).map_err(|e| format!("{:?} word {:#010x}: {}", op, word, e))?;
            st.states += 1;
            st.transitions += 1;
            st.traces += 1;
            Ok(())
        };
        let imms: Vec<i32> = match f {
            Form::Br => (-2048..2048).map(|k| k * 2).collect(),
            Form::J => (-2048..2048).map(|k| k * 2).chain((11..20).flat_map(|k| [1 << k, -(1 << k)])).collect(),
            Form::U => (0..20).map(|k| 1 << k).chain([0, 0xfffff, 0x12345, 0x80001]).collect(),
            Form::I | Form::Ld | Form::St | Form::Jr => (-2048..2048).collect(),
            Form::Sh5 => (0..32).collect(),
            Form::Sh6 => (0..64).collect(),
            _ => vec![0],
        };
        for rs1 in 0..32 {
            for rs2 in 0..32 {
                one(enc(op, rd, rs1, rs2, imms[(rs1 * 32 + rs2 + rd * 7) as usize % imms.len()]), st)?;
            }
        }
        for (k, &im) in imms.iter().enumerate() {
            one(enc(op, rd, k as u32 % 32, (k as u32 / 32 + rd) % 32, im), st)?;
        }
        Ok(())
    });
    // compressed words
    r.phase("tagged compressed", 1 << 16, 256, || [mkd(0), mkd(1), mkd(2)], |ws, i, st| {
        if i & 3 == 3 {
            return Ok(());
        }
        for w in ws.iter_mut() {
            w.m.w = i as u32;
            w.pc = (w.pc + 8) & 0xffff_ffff;
            if let Ok(got) = w.d.decode(&mut w.m, w.pc) {
                tag_check(got).map_err(|e| format!("word {:#06x}: {}", i, e))?;
                st.states += 1;
                st.transitions += 1;
                st.traces += 1;
            }
        }
        Ok(())
    });
    // ---- fused instructions: tagged view, and the handlers on symbolic registers
    let inst = fused_sequences();
    let vals = edge64();
    let vals: Vec<u64> = if q { vals.into_iter().step_by(2).collect() } else { vals };
    r.phase("fused symbolic", inst.len() as u64, 1, || (), |_, i, st| {
        let seq = &inst[i as usize];
        let mut s = Spec::new(Cfg { xlen: 64, isa: 7, version: 2 }, 1 << 20);
        let mut c = Code::new();
        c.ws(seq);
        s.mem.poke(PC, &c.0);
        s.mem.flags[(PC / PAGE) as usize] |= EXEC;
        let mut fm = ckb_vm::FlatMemory::<u64>::new_with_memory(1 << 20);
        fm.store_bytes(PC, &c.0).map_err(|e| format!("{:?}", e))?;
        fm.set_flag(PC / PAGE, EXEC).map_err(|e| format!("{:?}", e))?;
        let mut d = build_decoder::<u64>(7, 2);
        let got = d.decode(&mut fm, PC).map_err(|e| format!("{:?}: {:?}", seq, e))?;
        tag_check(got).map_err(|e| format!("{:x?}: {}", seq, e))?;
        if op_table()[extract_opcode(got) as usize].is_some() {
            return Ok(());
        }
        st.bump("fused forms", 1);
        let len = instruction_length(got) as u64;
        let base = s;
        // every register the sequence reads, over the alphabet (two at a time, the others fixed)
        let mut regs: Vec<usize> = vec![];
        let mut at = PC;
        while at < PC + len {
            let w = base.mem.fetch(at).map_err(|_| "fetch".to_string())?;
            let si = decode(w, base.c).ok_or("decode")?;
            for k in [si.rd, si.rs1, si.rs2] {
                if k != 0 && !regs.contains(&(k as usize)) {
                    regs.push(k as usize);
                }
            }
            at += si.len as u64;
        }
        let mut m = Sym::new(None, PC);
        execute(got, &mut m).map_err(|e| format!("{:x?} symbolic: {:?}", seq, e))?;
        for (p, &ra) in regs.iter().enumerate() {
            for &rb in &regs[p..] {
                for &a in &vals {
                    for &b in &vals {
                        let mut x = bg(64);
                        x[ra] = a;
                        x[rb] = b;
                        let mut s = base.clone();
                        s.x = x;
                        s.pc = PC;
                        while s.pc >= PC && s.pc < PC + len {
                            let before = s.pc;
                            s.step(&|_| 1, true).map_err(|t| format!("{:?}", t))?;
                            if s.pc <= before {
                                break;
                            }
                        }
                        m.check(&x, u64::MAX, &base.mem, &s).map_err(|e| format!("{:x?} x{}={:#x} x{}={:#x}: {}", seq, ra, a, rb, b, e))?;
                        let mut k = Sym::new(Some(&x), PC);
                        execute(got, &mut k).map_err(|e| format!("{:x?} folded: {:?}", seq, e))?;
                        k.check(&x, u64::MAX, &base.mem, &s).map_err(|e| format!("{:x?} folded x{}={:#x} x{}={:#x}: {}", seq, ra, a, rb, b, e))?;
                        st.states += 1;
                        st.transitions += 1;
                        st.traces += 2;
                    }
                }
            }
        }
        Ok(())
    });
    // ---- handlers on symbolic registers
    let sops: Vec<Op> = ALL_OPS.iter().copied().filter(|o| !matches!(o, Op::ECALL | Op::EBREAK)).collect();
    let pats: &[(u32, u32, u32)] = &[(5, 6, 7), (6, 6, 7), (7, 6, 7), (5, 6, 6), (6, 6, 6), (0, 6, 7), (5, 0, 7), (5, 6, 0), (31, 30, 29), (1, 2, 8)];
    let edge = edge64();
    r.phase("symbolic handlers", (sops.len() * pats.len()) as u64, 2, || mkd(2), |w, i, st| {
        let op = sops[i as usize / pats.len()];
        let (rd, rs1, rs2) = pats[i as usize % pats.len()];
        let f = form(op).0;
        let mem = matches!(f, Form::Ld | Form::St | Form::Amo | Form::Lr);
        if mem && rs1 == 0 {
            return Ok(());
        }
        let imms: &[i32] = match f {
            Form::Br | Form::J => &[16, -8, 2, 4094, -4096],
            Form::U => &[0, 1, 0x80000, 0xfffff, 0x12345],
            Form::I | Form::Jr => &[0, 1, -1, 2047, -2048, 5],
            Form::Ld | Form::St => &[0, 8, -3],
            Form::Sh5 => &[0, 1, 31, 13],
            Form::Sh6 => &[0, 1, 31, 32, 63, 13],
            _ => &[0],
        };
        for &imm in imms {
            let word = enc(op, rd, rs1, rs2, imm);
            let c = Cfg { xlen: 64, isa: 7, version: 2 };
            let si = match decode(word, c) {
                Some(s) => s,
                None => return Err(format!("{:?} is not encodable", op)),
            };
            w.m.w = word;
            w.pc = (w.pc + 8) & 0xffff_ffff;
            let got = w.d.decode(&mut w.m, w.pc).map_err(|e| format!("{:?}", e))?;
            let mut m = Sym::new(None, PC);
            execute(got, &mut m).map_err(|e| format!("{:?} symbolic: {:?}", op, e))?;
            let avs: Vec<u64> = if mem { (0..9).map(|k| DATA + k).collect() } else { edge.clone() };
            let bvs: Vec<u64> = if matches!(f, Form::R | Form::Br | Form::St | Form::Amo) { edge.clone() } else { vec![0x5555] };
            for &a in &avs {
                for &b in &bvs {
                    for lr in [u64::MAX, a] {
                        if lr == a && !matches!(op, Op::SC_W | Op::SC_D) {
                            continue;
                        }
                        let mut x = bg(64);
                        x[rs2 as usize] = b;
                        x[rs1 as usize] = a;
                        x[0] = 0;
                        let mut s = Spec::new(c, 1 << 20);
                        for k in 0..64u64 {
                            s.mem.wr8(DATA - 32 + k, (k as u8).wrapping_mul(37) ^ 0x9a);
                        }
                        let before = s.mem.clone();
                        s.x = x;
                        s.pc = PC;
                        s.lr = lr;
                        s.exec(si).map_err(|t| format!("{:?}", t))?;
                        m.check(&x, lr, &before, &s).map_err(|e| format!("{:?} word {:#010x} a={:#x} b={:#x}: {}", op, word, a, b, e))?;
                        let mut k = Sym::new(Some(&x), PC);
                        execute(got, &mut k).map_err(|e| format!("{:?} folded: {:?}", op, e))?;
                        k.check(&x, lr, &before, &s).map_err(|e| format!("{:?} word {:#010x} folded a={:#x} b={:#x}: {}", op, word, a, b, e))?;
                        st.states += 1;
                        st.transitions += 1;
                        st.traces += 2;
                    }
                }
            }
        }
        Ok(())
    });
    // ---- register arithmetic
    let mut a64 = edge64();
    let mut a32 = edge32();
    for k in 0..64u32 {
        for d in [u64::MAX, 0, 1] {
            a64.push((1u64 << k).wrapping_add(d));
            a64.push((!(1u64 << k)).wrapping_add(d));
            if k < 32 {
                a32.push((1u64 << k).wrapping_add(d) & 0xffff_ffff);
                a32.push((!(1u64 << k)).wrapping_add(d) & 0xffff_ffff);
            }
        }
    }
    for v in [&mut a64, &mut a32] {
        v.sort();
        v.dedup();
    }
    r.phase("registers alphabet", a64.len() as u64, 4, || (), |_, i, st| {
        let a = a64[i as usize];
        for &b in &a64 {
            reg_pair(64, a, b, true)?;
        }
        st.states += a64.len() as u64;
        if let Some(&a) = a32.get(i as usize) {
            for &b in &a32 {
                reg_pair(32, a, b, true)?;
            }
            st.states += a32.len() as u64;
        }
        st.transitions += a64.len() as u64 * B2.len() as u64;
        st.traces += 4 * a64.len() as u64 * B2.len() as u64;
        Ok(())
    });
    r.phase("register dump", 33 * a64.len() as u64, 16, || (), |_, i, st| {
        let (at, v) = ((i % 33) as usize, a64[(i / 33) as usize]);
        dump::<u64>(64, at, v)?;
        dump::<u32>(32, at, v)?;
        st.states += 2;
        st.traces += 2;
        Ok(())
    });
    r.phase("registers bytes", 256 * 8, 4, || (), |_, i, st| {
        let a = (i % 256) << (8 * (i / 256));
        let step = if q { 5 } else { 1 };
        let mut n = 0;
        for pos in 0..8 {
            for v in (0..256u64).step_by(step) {
                let b = v << (8 * pos);
                for (x, y) in [(a, b), (!a, b), (a, !b)] {
                    reg_pair(64, x, y, false)?;
                    if pos < 4 && i < 1024 {
                        reg_pair(32, x & 0xffff_ffff, y & 0xffff_ffff, false)?;
                    }
                    n += 1;
                }
            }
        }
        st.states += n;
        st.transitions += n * B2.len() as u64;
        st.traces += n * B2.len() as u64;
        Ok(())
    });
    // ---- conversions
    let n16 = 1u64 << 16;
    r.phase("conversions", n16 + a64.len() as u64, 256, || (), |_, i, st| {
        let v = if i < n16 { i | (i ^ 0x5a5a) << 16 | (!i & 0xffff) << 32 | i << 48 } else { a64[(i - n16) as usize] };
        conv::<u64>(64, v)?;
        conv::<u32>(32, v)?;
        // symbolic values: construction only
        let e = |x: Value| match x {
            Value::Imm(i) => i,
            o => panic!("{:?} is not a constant", o),
        };
        let ok = e(Value::from_i8(v as i8)) == v as i8 as i64 as u64
            && e(Value::from_i16(v as i16)) == v as i16 as i64 as u64
            && e(Value::from_i32(v as i32)) == v as i32 as i64 as u64
            && e(Value::from_i64(v as i64)) == v
            && e(Value::from_u8(v as u8)) == v as u8 as u64
            && e(Value::from_u16(v as u16)) == v as u16 as u64
            && e(Value::from_u32(v as u32)) == v as u32 as u64
            && e(Value::from_u64(v)) == v;
        if !ok {
            return Err(format!("symbolic constants made from {:#x}", v));
        }
        for k in 0..=20u32 {
            let n = 1u64 << k;
            let lo = v / n * n;
            let up = ((v as u128 + n as u128 - 1) / n as u128 * n as u128) as u64; // wraps to 0
            if rounddown(v, n) != lo || roundup(v, n) != up {
                return Err(format!("rounding {:#x} to {:#x}: {:#x} {:#x}", v, n, rounddown(v, n), roundup(v, n)));
            }
        }
        st.states += 1;
        st.transitions += 16;
        st.traces += 16;
        Ok(())
    });
}

/// The tagged view must expose exactly the bytes of the word, and its text the same operands.
fn tag_check(w: u64) -> CaseRes {
    let op = op_of(w);
    let t = TaggedInstruction::try_from(w).map_err(|e| format!("no tagged view: {:?}", e))?;
    let back: u64 = t.clone().into();
    if back != w {
        return Err(format!("{:#018x} becomes {:#018x} through the tagged view", w, back));
    }
    let by = |k: u32| (w >> (8 * k) & 0xff) as usize;
    let reg = |k: u32| ABI[by(k)].to_string();
    let i24 = (w as i64) >> 40;
    let i32_ = (w as i64) >> 32;
    let name = instruction_opcode_name(op);
    let mut want = vec![name.to_lowercase()];
    let kind = match &t {
        TaggedInstruction::Rtype(_) => {
            want.extend([reg(1), reg(4), reg(5)]);
            "R"
        }
        TaggedInstruction::Itype(_) => {
            want.extend([reg(1), i24.to_string(), reg(4)]);
            "I"
        }
        TaggedInstruction::Stype(_) => {
            if matches!(op_table()[op as usize].map(|o| form(o).0), Some(Form::Br)) {
                want.extend([reg(4), reg(1), i24.to_string()]);
            } else {
                want.extend([reg(1), i24.to_string(), reg(4)]);
            }
            "S"
        }
        TaggedInstruction::Utype(_) => {
            want.extend([reg(1), i32_.to_string()]);
            "U"
        }
        TaggedInstruction::R4type(_) => {
            want.extend([reg(1), reg(4), reg(5), reg(6)]);
            "R4"
        }
        TaggedInstruction::R5type(_) => {
            want.extend([reg(1), reg(4), reg(5), reg(6), reg(7)]);
            "R5"
        }
    };
    // the format the operation has: architectural ones by the model, fused ones by their operands
    let expect: &[&str] = match op_table()[op as usize] {
        Some(o) => match form(o).0 {
            Form::R | Form::Amo | Form::R1 | Form::Lr | Form::N => &["R"],
            Form::I | Form::Sh5 | Form::Sh6 | Form::Ld | Form::Jr => &["I"],
            Form::St | Form::Br => &["S"],
            Form::U | Form::J => &["U"],
        },
        None => match base_name(op) {
            "ADC" => &["R"],
            "SBB" | "ADCS" | "SBBS" | "WIDE_MUL" | "WIDE_MULU" | "WIDE_MULSU" | "WIDE_DIV" | "WIDE_DIVU" => &["R4"],
            "ADD3A" | "ADD3B" | "ADD3C" => &["R5"],
            "FAR_JUMP_REL" | "FAR_JUMP_ABS" | "CUSTOM_LOAD_UIMM" | "CUSTOM_LOAD_IMM" => &["U"],
            _ => &["R", "I", "S", "U", "R4", "R5"],
        },
    };
    if !expect.contains(&kind) {
        return Err(format!("{} has a tagged view of format {}", name, kind));
    }
    let text = t.to_string();
    let mut got = tokens(&text);
    // unary operations have no third operand to name
    if matches!(op_table()[op as usize].map(|o| form(o).0), Some(Form::R1) | Some(Form::Lr)) {
        want.truncate(3);
        got.truncate(3);
    }
    if matches!(op_table()[op as usize].map(|o| form(o).0), Some(Form::N)) {
        want.truncate(1);
        got.truncate(1);
    }
    if got != want {
        return Err(format!("rendered as '{}', the word says {:?}", text, want));
    }
    Ok(())
}

/// Sequences that fuse, over several register assignments.
fn fused_sequences() -> Vec<Vec<u32>> {
    let base = crate::c12::instances(64);
    let maps: [[u32; 32]; 3] = {
        let mut m = [[0; 32]; 3];
        for k in 0..32 {
            m[0][k] = k as u32;
            m[1][k] = match k {
                8..=12 => k as u32 + 10,
                _ => k as u32,
            };
            m[2][k] = match k {
                8..=12 => 39 - k as u32,
                _ => k as u32,
            };
        }
        m
    };
    let c = Cfg { xlen: 64, isa: 7, version: 2 };
    let mut out = vec![];
    for s in &base {
        for m in &maps {
            let t: Option<Vec<u32>> = s
                .iter()
                .map(|&w| {
                    let i = decode(w, c)?;
                    if i.len != 4 {
                        return None;
                    }
                    let imm = if matches!(form(i.op).0, Form::U) { (i.imm as u32 >> 12) as i32 } else { i.imm as i32 };
                    Some(enc(i.op, m[i.rd as usize], m[i.rs1 as usize], m[i.rs2 as usize], imm))
                })
                .collect();
            if let Some(t) = t {
                if !out.contains(&t) {
                    out.push(t);
                }
            }
        }
    }
    out
}

fn reg_pair(w: u32, a: u64, b: u64, full: bool) -> CaseRes {
    let x = {
        let mut x = [0u64; 32];
        x[1] = a;
        x[2] = b;
        x
    };
    let none = |_: u64, _: u64| 0u64;
    let env = Env { x: &x, lr: 0, mem: &none };
    for op in B2 {
        if !domain(op, w, b) {
            continue;
        }
        let want = ref2(op, w, a, b);
        let got = if w == 64 { app2::<u64>(op, &a, &b) } else { app2::<u32>(op, &(a as u32), &(b as u32)) as u64 };
        if got != want {
            return Err(format!("{}-bit {} of {:#x} and {:#x} = {:#x} instead of {:#x}", w, op, a, b, got, want));
        }
        if w == 64 && full {
            let forms = [(Value::Imm(a), Value::Imm(b)), (Value::Register(1), Value::Register(2)), (Value::Register(1), Value::Imm(b)), (Value::Imm(a), Value::Register(2))];
            for (va, vb) in &forms {
                let v = eval(&app2::<Value>(op, va, vb), &env);
                if v != want {
                    return Err(format!("symbolic {} of {:?} and {:?} ({:#x}, {:#x}) = {:#x} instead of {:#x}", op, va, vb, a, b, v, want));
                }
            }
        }
    }
    for op in U1 {
        let want = ref1(op, w, a);
        let got = if w == 64 { app1::<u64>(op, &a) } else { app1::<u32>(op, &(a as u32)) as u64 };
        if got != want {
            return Err(format!("{}-bit {} of {:#x} = {:#x} instead of {:#x}", w, op, a, got, want));
        }
        if w == 64 && full {
            for va in [Value::Imm(a), Value::Register(1)] {
                let v = eval(&app1::<Value>(op, &va), &env);
                if v != want {
                    return Err(format!("symbolic {} of {:?} ({:#x}) = {:#x} instead of {:#x}", op, va, a, v, want));
                }
            }
        }
    }
    Ok(())
}

fn conv<T: Register + PartialEq + std::fmt::Debug>(w: u32, v: u64) -> CaseRes {
    let m = if w == 64 { u64::MAX } else { 0xffff_ffff };
    let rv = T::from_u64(v);
    let v = v & m;
    let ok = rv.to_u64() == v
        && rv.to_u32() == v as u32
        && rv.to_u16() == v as u16
        && rv.to_u8() == v as u8
        && rv.to_i8() == v as i8
        && rv.to_i16() == v as i16
        && rv.to_i32() == v as i32
        && rv.to_i64() == if w == 64 { v as i64 } else { v as i32 as i64 }
        && T::from_i8(v as i8).to_u64() == v as i8 as i64 as u64 & m
        && T::from_i16(v as i16).to_u64() == v as i16 as i64 as u64 & m
        && T::from_i32(v as i32).to_u64() == v as i32 as i64 as u64 & m
        && T::from_i64(v as i64).to_u64() == v & m
        && T::from_u8(v as u8).to_u64() == v as u8 as u64
        && T::from_u16(v as u16).to_u64() == v as u16 as u64
        && T::from_u32(v as u32).to_u64() == v as u32 as u64
        && T::zero().to_u64() == 0
        && T::one().to_u64() == 1
        && T::min_value().to_u64() == 0
        && T::max_value().to_u64() == m
        && T::default().to_u64() == 0
        && T::BITS as u32 == w
        && T::SHIFT_MASK as u32 == w - 1
        && T::one().logical_not().to_u64() == 0
        && T::zero().logical_not().to_u64() == 1
        && rv.to_string() == v.to_string();
    if !ok {
        return Err(format!("{}-bit conversions of {:#x}", w, v));
    }
    Ok(())
}
