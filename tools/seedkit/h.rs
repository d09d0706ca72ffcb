//! Small helpers: machines with code placed directly in memory.
#![allow(dead_code)]
use ckb_vm::machine::asm::{AsmCoreMachine, AsmMachine};
use ckb_vm::machine::trace::TraceMachine;
use ckb_vm::memory::{FLAG_EXECUTABLE, FLAG_FREEZED};
use ckb_vm::*;

pub const MEM: usize = 1 << 20;
pub const CODE: u64 = 0x10000;
pub const DATA: u64 = 0x40000;

pub type Mem<R> = WXorXMemory<SparseMemory<R>>;
pub type Core<R> = DefaultCoreMachine<R, Mem<R>>;

pub fn cost(_: Instruction) -> u64 {
    1
}
pub fn bytes(code: &[u32]) -> Bytes {
    let mut v = vec![];
    for c in code {
        v.extend_from_slice(&c.to_le_bytes());
    }
    Bytes::from(v)
}
pub fn place<M: SupportMachine>(m: &mut M, code: &[u32]) {
    let mut b = bytes(code).to_vec();
    b.resize((b.len() + 4095) / 4096 * 4096, 0);
    let n = b.len() as u64;
    m.memory_mut().init_pages(CODE, n, FLAG_EXECUTABLE | FLAG_FREEZED, Some(Bytes::from(b)), 0).unwrap();
    m.update_pc(M::REG::from_u64(CODE));
    m.commit_pc();
}
pub fn interp<R: Register>(isa: u8, version: u32, code: &[u32], regs: &[(usize, u64)]) -> DefaultMachine<Core<R>> {
    let core = Core::<R>::new_with_memory(isa, version, u64::MAX, Mem::<R>::new(SparseMemory::new_with_memory(MEM)));
    let mut m = DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(cost)).build();
    place(&mut m, code);
    for (k, v) in regs {
        m.set_register(*k, R::from_u64(*v));
    }
    m
}
pub fn trace<R: Register>(isa: u8, version: u32, code: &[u32], regs: &[(usize, u64)]) -> TraceMachine<Core<R>> {
    TraceMachine::new(interp::<R>(isa, version, code, regs))
}
pub fn asm(isa: u8, version: u32, code: &[u32], regs: &[(usize, u64)]) -> AsmMachine {
    let core = AsmCoreMachine::new_with_memory(isa, version, u64::MAX, MEM);
    let mut m = DefaultMachineBuilder::new(core).instruction_cycle_func(Box::new(cost)).build();
    place(&mut m, code);
    for (k, v) in regs {
        m.set_register(*k, *v);
    }
    AsmMachine::new(m)
}
// encodings
pub fn r(op: u32, f3: u32, f7: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn i(op: u32, f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    ((imm as u32) & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 {
    i(0x13, 0, rd, rs1, imm)
}
pub fn s(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let m = imm as u32;
    (m >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (m & 0x1f) << 7 | 0x23
}
pub fn b(f3: u32, rs1: u32, rs2: u32, off: i32) -> u32 {
    let m = off as u32;
    (m >> 12 & 1) << 31 | (m >> 5 & 0x3f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (m >> 1 & 0xf) << 8 | (m >> 11 & 1) << 7 | 0x63
}
pub const ECALL: u32 = 0x73;
pub const EBREAK: u32 = 0x0010_0073;
/// li a7,93; ecall
pub fn exit() -> [u32; 2] {
    [addi(17, 0, 93), ECALL]
}
pub fn code(parts: &[&[u32]]) -> Vec<u32> {
    parts.concat()
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
pub fn mem<R: Register>() -> Mem<R> {
    Mem::<R>::new(SparseMemory::new_with_memory(MEM))
}
