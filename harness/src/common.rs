//! Shared pieces of the checks: comparing a finished run of an engine with the model.
use crate::eng::{kind, make, Eng, Opt, EK};
use crate::fw::Stats;
use crate::asmb::enc;
use crate::spec::{decode, Cfg, Kind, Op, SMem, Spec, Trap, DIRTY, EXEC, PAGE};
use ckb_vm::Error;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Compare result, registers and (when the run ended normally) pc.
pub fn cmp_end(e: &mut dyn Eng, s: &Spec, r: &Result<i8, Error>, sr: &Result<i8, Trap>) -> Result<(), String> {
    let ek = e.ek();
    match (r, sr) {
        (Ok(a), Ok(b)) => {
            if a != b {
                return Err(format!("{:?}: exit code {} instead of {}", ek, a, b));
            }
        }
        (Err(a), Err(t)) => {
            if !t.0.contains(&kind(a)) {
                return Err(format!("{:?}: error {:?} instead of {:?}", ek, a, t.0));
            }
        }
        (a, b) => return Err(format!("{:?}: ended with {:?}, the model with {:?}", ek, a, b)),
    }
    let x = e.x();
    for k in 0..32 {
        if x[k] != s.x[k] && !(sr.is_err() && k == s.trap_rd as usize) {
            return Err(format!("{:?}: x{} = {:#x} instead of {:#x}", ek, k, x[k], s.x[k]));
        }
    }
    if sr.is_ok() && e.pc() != s.pc {
        return Err(format!("{:?}: pc = {:#x} instead of {:#x}", ek, e.pc(), s.pc));
    }
    Ok(())
}

/// Engines that decode a whole straight-line block before executing it.
pub fn block_engine(ek: EK) -> bool {
    ek.is_trace() || (ek.is_asm() && ek != EK::AsmStep)
}
/// A fetch or decode failure ahead of pc in the same straight-line block.
pub fn fetch_trap_ahead(s: &Spec) -> Option<Trap> {
    let mut t = s.clone_shallow();
    for _ in 0..5000 {
        match t.fetch_decode(&s.mem) {
            Err(e) => return Some(e),
            Ok(i) => {
                if i.op.ends_block() {
                    return None;
                }
                t.pc = s.m(t.pc.wrapping_add(i.len as u64));
            }
        }
    }
    None
}
/// Like cmp_end, but block engines may report a fetch/decode failure of the block at its start,
/// before executing the instructions that precede it. Ok(true): state is comparable.
pub fn cmp_end_block(e: &mut dyn Eng, s: &Spec, r: &Result<i8, Error>, sr: &Result<i8, Trap>) -> Result<bool, String> {
    if let (Err(a), Err(t)) = (r, sr) {
        if block_engine(e.ek()) {
            if let Some(f) = fetch_trap_ahead(s) {
                if f.0.contains(&kind(a)) {
                    return Ok(false);
                }
                if f == *t {
                    return Err(format!("{:?}: error {:?} instead of {:?}", e.ek(), a, t.0));
                }
            }
        }
    }
    cmp_end(e, s, r, sr).map(|_| true)
}

/// Compare memory contents of the listed pages and all page flags (ignoring `mask_off` bits).
pub fn cmp_mem(e: &mut dyn Eng, m: &SMem, pages: &[u64], mask_off: u8) -> Result<(), String> {
    let ek = e.ek();
    for &p in pages {
        let b = e.load_bytes(p * PAGE, PAGE).map_err(|x| format!("{:?}: host cannot read page {}: {:?}", ek, p, x))?;
        cmp_page(ek, m, p, &b)?;
    }
    for p in 0..m.flags.len() as u64 {
        let f = e.flag(p).map_err(|x| format!("{:?}: flag of page {}: {:?}", ek, p, x))?;
        if (f ^ m.flags[p as usize]) & !mask_off != 0 {
            return Err(format!("{:?}: flags of page {} are {:#x} instead of {:#x}", ek, p, f, m.flags[p as usize]));
        }
    }
    Ok(())
}
pub fn cmp_page(ek: EK, m: &SMem, p: u64, b: &[u8]) -> Result<(), String> {
    let z = [0u8; 4096];
    let want: &[u8] = match &m.pages[p as usize] {
        Some(x) => &x[..],
        None => &z,
    };
    if b != want {
        let k = (0..4096).find(|k| b[*k] != want[*k]).unwrap();
        return Err(format!("{:?}: memory byte {:#x} = {:#x} instead of {:#x}", ek, p * PAGE + k as u64, b[k], want[k]));
    }
    Ok(())
}
pub fn all_pages(m: &SMem) -> Vec<u64> {
    (0..m.flags.len() as u64).collect()
}

/// A set of engines plus the model, all with the same memory.
pub struct Bench {
    pub engs: Vec<Box<dyn Eng>>,
    pub s: Spec,
    pub opt: Opt,
}
impl Bench {
    pub fn new(eks: &[EK], opt: &Opt, xlen: u32) -> Bench {
        let c = Cfg { xlen, isa: opt.isa, version: opt.version };
        let mut s = Spec::new(c, opt.mem as u64);
        s.ecall = opt.ecall;
        s.max_cycles = opt.max_cycles;
        Bench { engs: eks.iter().map(|k| make(*k, opt)).collect(), s, opt: opt.clone() }
    }
    /// Put code at `a` on every engine and in the model; its pages become executable.
    pub fn put_code(&mut self, a: u64, code: &[u8]) {
        let (p0, p1) = (a / PAGE, (a + code.len() as u64 - 1) / PAGE);
        for e in self.engs.iter_mut() {
            for p in p0..=p1 {
                e.clear_flag(p, EXEC).unwrap();
            }
            e.store_bytes(a, code).unwrap();
            for p in p0..=p1 {
                e.set_flag(p, EXEC).unwrap();
            }
        }
        self.s.mem.poke(a, code);
        for p in p0..=p1 {
            self.s.mem.flags[p as usize] |= EXEC | DIRTY;
        }
    }
    /// Write data from the host side everywhere.
    pub fn put_data(&mut self, a: u64, d: &[u8]) {
        for e in self.engs.iter_mut() {
            e.store_bytes(a, d).unwrap();
        }
        self.s.mem.wr_bytes(a, d).unwrap();
    }
    pub fn set_flag(&mut self, p: u64, f: u8) {
        for e in self.engs.iter_mut() {
            e.set_flag(p, f).unwrap();
        }
        self.s.mem.flags[p as usize] |= f;
    }
    pub fn clear_flag(&mut self, p: u64, f: u8) {
        for e in self.engs.iter_mut() {
            e.clear_flag(p, f).unwrap();
        }
        self.s.mem.flags[p as usize] &= !f;
    }
    pub fn init_pages(&mut self, a: u64, n: u64, f: u8) {
        for e in self.engs.iter_mut() {
            e.init_pages(a, n, f, None, 0).unwrap();
        }
        for p in a / PAGE..(a + n) / PAGE {
            self.s.mem.flags[p as usize] |= f | DIRTY;
            self.s.mem.pages[p as usize] = None;
        }
    }
}

pub fn is(k: &Result<i8, Error>, w: Kind) -> bool {
    matches!(k, Err(e) if kind(e) == w)
}

/// Background register values that make a wrongly clobbered or swapped register visible.
pub fn bg(xlen: u32) -> [u64; 32] {
    let mut x = [0u64; 32];
    for k in 1..32u64 {
        x[k as usize] = 0x1111_0000_0000_0000u64.wrapping_mul(k) ^ (0xa5a5_0000_5a00 + k * 0x0101_0101);
        if xlen == 32 {
            x[k as usize] &= 0xffff_ffff;
        }
    }
    x
}
pub fn count(st: &mut Stats, s: &Spec, steps0: u64, runs: u64) {
    let d = s.steps - steps0;
    st.transitions += d;
    st.states += d + 1;
    st.traces += runs;
}

/// Values around which integer semantics change.
pub fn edge64() -> Vec<u64> {
    let mut v: Vec<u64> = vec![
        0, 1, 2, 3, 5, 7, 8, 31, 32, 33, 63, 64, 65, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff,
        0x1_0000_0000, 0x1_8000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001, 0xffff_ffff_8000_0000, 0xffff_ffff_7fff_ffff,
        u64::MAX, u64::MAX - 1, 0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0xaaaa_aaaa_5555_5555, 0x00ff_00ff_ff00_0001,
    ];
    v.dedup();
    v
}
pub fn edge32() -> Vec<u64> {
    vec![
        0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_ffff,
        0xffff_fffe, 0x0123_4567, 0x89ab_cdef, 0xaaaa_5555, 0x00ff_0001,
    ]
}

/// Every operation that reads or writes memory (each has code of its own in the assembly engine).
pub const MEMOPS: &[Op] = &[
    Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU, Op::LWU, Op::LD, Op::SB, Op::SH, Op::SW, Op::SD, Op::LR_W, Op::LR_D, Op::SC_W, Op::SC_D, Op::AMOSWAP_W, Op::AMOADD_W, Op::AMOXOR_W, Op::AMOAND_W, Op::AMOOR_W,
    Op::AMOMIN_W, Op::AMOMAX_W, Op::AMOMINU_W, Op::AMOMAXU_W, Op::AMOSWAP_D, Op::AMOADD_D, Op::AMOXOR_D, Op::AMOAND_D, Op::AMOOR_D, Op::AMOMIN_D, Op::AMOMAX_D, Op::AMOMINU_D, Op::AMOMAXU_D,
];
/// Those of them that an extension set and a register width have.
pub fn memops(c: Cfg) -> Vec<Op> {
    MEMOPS.iter().copied().filter(|op| decode(enc(*op, 5, 8, if matches!(op, Op::LR_W | Op::LR_D) { 0 } else { 6 }, 0), c).is_some()).collect()
}
