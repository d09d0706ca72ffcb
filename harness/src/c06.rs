//! C06: cycle accounting for every limit.
use crate::asmb::*;
use crate::c03::{tokens, Tok};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::instructions::{blank_instruction, extract_opcode, insts};
use ckb_vm::Instruction;
use std::sync::Arc;

pub const MEM: usize = 1 << 20;
pub const LO: u64 = 0x1_0000;
pub const HI: u64 = 0x9_0000;
pub const DATA: u64 = 0xa_0800;
pub const WIN: u64 = 64;
pub const FUEL: u64 = 400;

/// A cost function given both to the engines and to the model.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cost {
    PerOp,
    Zero,
    One,
    Estimate,
    /// one operation costs almost everything
    Huge(Op, u64),
}
/// The published estimate of the cost of an operation (consensus relevant), written down independently.
pub fn estimate(name: &str) -> u64 {
    let base = name.strip_suffix("_VERSION0").or_else(|| name.strip_suffix("_VERSION1")).unwrap_or(name);
    match base {
        "JALR" | "JAL" | "BEQ" | "BGE" | "BGEU" | "BLT" | "BLTU" | "BNE" | "FAR_JUMP_REL" | "FAR_JUMP_ABS" => 3,
        "LD" | "SD" => 2,
        "LW" | "LH" | "LB" | "LWU" | "LHU" | "LBU" | "SB" | "SH" | "SW" => 3,
        "EBREAK" | "ECALL" => 500,
        "MUL" | "MULW" | "MULH" | "MULHU" | "MULHSU" | "WIDE_MUL" | "WIDE_MULU" | "WIDE_MULSU" => 5,
        "DIV" | "DIVW" | "DIVU" | "DIVUW" | "REM" | "REMW" | "REMU" | "REMUW" | "WIDE_DIV" | "WIDE_DIVU" => 32,
        "LR_W" | "SC_W" => 4,
        "LR_D" | "SC_D" => 3,
        n if n.starts_with("AMO") && n.ends_with("_W") => 4,
        n if n.starts_with("AMO") && n.ends_with("_D") => 3,
        _ => 1,
    }
}
impl Cost {
    pub fn of(self, op: Op) -> u64 {
        match self {
            Cost::PerOp => cost_of(op),
            Cost::Zero => 0,
            Cost::One => 1,
            Cost::Estimate => estimate(op.name()),
            Cost::Huge(o, c) => {
                if o == op {
                    c
                } else {
                    1
                }
            }
        }
    }
    pub fn func(self) -> Arc<dyn Fn(Instruction) -> u64 + Send + Sync> {
        match self {
            Cost::Estimate => Arc::new(ckb_vm::cost_model::estimate_cycles),
            Cost::One => Arc::new(ckb_vm::cost_model::constant_cycles),
            _ => Arc::new(move |i| match op_table()[extract_opcode(i) as usize] {
                Some(op) => self.of(op),
                None => 1,
            }),
        }
    }
}

#[derive(Clone)]
pub struct H {
    pub x: [u64; 32],
    pub pc: u64,
    pub cycles: u64,
    pub data: [u8; WIN as usize],
    /// a block starts here
    pub start: bool,
    pub log: usize,
}

struct Plan {
    name: String,
    xlen: u32,
    isa: u8,
    version: u32,
    eks: &'static [EK],
    len: u32,
    toks: Vec<Tok>,
    pads: Vec<u64>,
    cost: Cost,
    /// start near the end of the counter's range as well
    wrap: bool,
}
struct W {
    a: Arena,
}
fn mk(p: &Plan) -> W {
    let mut opt = Opt::new(p.isa, p.version, MEM);
    opt.ecall = EcallModel::Rich;
    opt.cost = Some(p.cost.func());
    W { a: Arena::new(Bench::new(p.eks, &opt, p.xlen), LO, HI) }
}

pub fn toks(xlen: u32, a: bool) -> Vec<Tok> {
    let drop = ["add x6,x5,x6", "auipc x7,0", "lbu x6,9(x8)", "sub x7,x6,x5", "jalr x1,x1,0"];
    let mut v: Vec<Tok> = tokens(xlen, a).into_iter().filter(|t| !drop.contains(&t.0)).collect();
    v.push(Tok("addi x17,x0,65", addi(17, 0, 65)));
    v.push(Tok("addi x17,x0,66", addi(17, 0, 66)));
    v
}

pub fn snapshot(s: &Spec, start: bool) -> H {
    let mut data = [0; WIN as usize];
    for k in 0..WIN {
        data[k as usize] = s.mem.rd8(DATA + k);
    }
    H { x: s.x, pc: s.pc, cycles: s.cycles, data, start, log: s.log.len() }
}

/// Model run recording the state before every instruction. None: out of fuel.
pub fn model(s: &mut Spec, cost: Cost, hist: &mut Vec<H>) -> Option<Result<i8, Trap>> {
    model_for(s, cost, hist, FUEL)
}
pub fn model_for(s: &mut Spec, cost: Cost, hist: &mut Vec<H>, fuel: u64) -> Option<Result<i8, Trap>> {
    hist.clear();
    s.running = true;
    let mut start = true;
    for _ in 0..fuel {
        hist.push(snapshot(s, start));
        start = s.fetch_decode().map_or(true, |i| i.op.ends_block());
        match s.step(&|i| cost.of(i.op), false) {
            Ok(Step::Ok) => {}
            Ok(Step::Exit) => return Some(Ok(s.exit)),
            Err(t) => return Some(Err(t)),
        }
    }
    None
}

pub fn differs(e: &mut dyn Eng, h: &H, log: usize) -> Option<String> {
    let x = e.x();
    for k in 0..32 {
        if x[k] != h.x[k] {
            return Some(format!("x{} = {:#x} instead of {:#x}", k, x[k], h.x[k]));
        }
    }
    if e.pc() != h.pc {
        return Some(format!("pc = {:#x} instead of {:#x}", e.pc(), h.pc));
    }
    let m = e.load_bytes(DATA, WIN).unwrap();
    for k in 0..WIN as usize {
        if m[k] != h.data[k] {
            return Some(format!("data byte {} = {:#x} instead of {:#x}", k, m[k], h.data[k]));
        }
    }
    if log != h.log {
        return Some(format!("{} system calls instead of {}", log, h.log));
    }
    None
}
fn over(k: Kind) -> bool {
    matches!(k, Kind::Cycles | Kind::CyclesOverflow)
}

struct Init {
    pc: u64,
    x: [u64; 32],
    fuel: u64,
}
pub const PAT: [u8; WIN as usize] = {
    let mut p = [0u8; WIN as usize];
    let mut k = 0;
    while k < WIN as usize {
        p[k] = (k as u8).wrapping_mul(29) ^ 0x33;
        k += 1;
    }
    p
};

/// One limit: cycles start at c0, the limit is max.
fn one(b: &mut Bench, i: &Init, cost: Cost, c0: u64, max: u64, full: &Option<(Result<i8, Trap>, u64, [u64; 32], u64)>, st: &mut Stats, hist: &mut Vec<H>) -> Result<Option<(Result<i8, Trap>, u64)>, String> {
    let s = &mut b.s;
    s.x = i.x;
    s.pc = i.pc;
    s.lr = s.m(u64::MAX);
    s.cycles = c0;
    s.max_cycles = max;
    s.log.clear();
    s.mem.poke(DATA, &PAT);
    let s0 = s.steps;
    let sr = match model_for(s, cost, hist, i.fuel) {
        Some(r) => r,
        None => return Ok(None),
    };
    let paid = s.steps - s0 == hist.len() as u64; // the last instruction itself was paid for
    let nlog = s.log.len();
    let exceeded = matches!(&sr, Err(t) if t.0.iter().all(|k| over(*k)));
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        for k in 1..32 {
            e.set_x(k, i.x[k]);
        }
        e.set_pc(i.pc);
        e.set_lr(u64::MAX);
        e.set_cycles(c0);
        e.set_max(max);
        e.store_bytes(DATA, &PAT).unwrap();
        b.opt.log.lock().unwrap().clear();
        let r = e.run();
        st.traces += 1;
        let blk = block_engine(ek);
        if e.max_cycles() != max {
            return Err(format!("{:?}: the limit changed to {} from {}", ek, e.max_cycles(), max));
        }
        if !exceeded {
            match (&r, &sr) {
                (Ok(_), Ok(_)) => {
                    cmp_end(e, s, &r, &sr)?;
                    if e.cycles() != s.cycles {
                        return Err(format!("{:?}: {} cycles instead of {}", ek, e.cycles(), s.cycles));
                    }
                }
                // a block that contains the failing instruction may be too expensive as a whole
                (Err(x), Err(_)) if blk && over(kind(x)) => {}
                _ => {
                    cmp_end_block(e, s, &r, &sr)?;
                }
            }
            continue;
        }
        // the model ran out of cycles
        let k = match &r {
            Ok(c) => return Err(format!("{:?}: finished with {} instead of exceeding the limit of {} (from {})", ek, c, max, c0)),
            Err(x) => kind(x),
        };
        let jmax = hist.len() - 1;
        if !over(k) {
            // a decoding or fetch failure ahead in the same block
            if blk {
                let h = &hist[jmax];
                let mut t = s.clone();
                t.pc = h.pc;
                if let Some(f) = fetch_trap_ahead(&t) {
                    if f.0.contains(&k) {
                        continue;
                    }
                }
            }
            return Err(format!("{:?}: ended with {:?} instead of exceeding the limit of {} (from {})", ek, r, max, c0));
        }
        let same = matches!(&sr, Err(t) if t.0.contains(&k));
        if !same && !blk {
            return Err(format!("{:?}: ended with {:?} instead of {:?}", ek, r, sr));
        }
        let log = b.opt.log.lock().unwrap().len();
        if paid {
            // the call itself went over the limit: its effects are in place
            let mut t = snapshot(s, true);
            t.log = nlog;
            if ek.is_trace() || !ek.is_asm() || same {
                t.pc = e.pc();
                if let Some(d) = differs(e, &t, log) {
                    return Err(format!("{:?} stopped at the call that exceeded the limit of {}: {}", ek, max, d));
                }
            }
            continue;
        }
        // the state must be that of a boundary that was paid for: exactly the last one for engines
        // that pay per instruction, some boundary of the last block for the others
        let first = if ek.is_asm() && ek != EK::AsmStep { (0..=jmax).rev().find(|j| hist[*j].start).unwrap() } else { jmax };
        let mut why = String::new();
        let mut at = None;
        for j in (first..=jmax).rev() {
            match differs(e, &hist[j], log) {
                None => {
                    at = Some(j);
                    break;
                }
                Some(d) => why = d,
            }
        }
        let j = match at {
            Some(j) => j,
            None => return Err(format!("{:?}: after exceeding the limit of {} (from {}) the state is not one that was paid for: {}", ek, max, c0, why)),
        };
        if e.cycles() != hist[j].cycles {
            return Err(format!("{:?}: {} cycles after exceeding the limit of {}, {} were used", ek, e.cycles(), max, hist[j].cycles));
        }
        // raising the limit continues the program
        if let Some((fr, total, fx, fpc)) = full {
            e.set_max(u64::MAX);
            let r = e.run();
            st.traces += 1;
            match (&r, fr) {
                (Ok(a), Ok(b)) => {
                    if a != b || e.cycles() != *total || e.x() != *fx || e.pc() != *fpc {
                        return Err(format!("{:?}: continued after exceeding {}: exit {} cycles {} pc {:#x} instead of exit {} cycles {} pc {:#x}", ek, max, a, e.cycles(), e.pc(), b, total, fpc));
                    }
                }
                (Err(_), Err(_)) => {}
                (a, b) => return Err(format!("{:?}: continued after exceeding {}: {:?} instead of {:?}", ek, max, a, b)),
            }
        }
    }
    st.states += hist.len() as u64;
    st.transitions += s.steps - s0;
    st.bump(if exceeded { "exceeded" } else if sr.is_ok() { "finished" } else { "trapped" }, 1);
    Ok(Some((sr, s.cycles)))
}

fn case(w: &mut W, p: &Plan, i: u64, st: &mut Stats) -> CaseRes {
    let np = p.pads.len() as u64;
    let pad = p.pads[(i % np) as usize];
    let d = digits(i / np, &vec![p.toks.len() as u64; p.len as usize]);
    let mut c = Code::new();
    for _ in 0..pad {
        c.w(addi(20, 20, 1));
    }
    for k in &d {
        c.w(p.toks[*k].1);
    }
    let show = || format!("{} pad={} {:?}", p.name, pad, d.iter().map(|k| p.toks[*k].0).collect::<Vec<_>>());
    let exit_off = c.0.len() as u64;
    c.exit();
    let pc = w.a.install(&[c.0])[0];
    let mut x = bg(p.xlen);
    x[1] = pc + exit_off;
    x[5] = 7;
    x[6] = 5;
    x[8] = DATA;
    x[9] = 2;
    x[10] = 9;
    x[11] = pc;
    x[17] = 64;
    let init = Init { pc, x, fuel: FUEL };
    let mut hist = vec![];
    let b = &mut w.a.b;
    // unlimited first
    let full = one(b, &init, p.cost, 0, u64::MAX, &None, st, &mut hist).map_err(|m| format!("{}: {}", show(), m))?;
    let cums: Vec<u64> = hist.iter().map(|h| h.cycles).collect();
    let (limits, full) = match full {
        Some((r, total)) => {
            let mut l: Vec<u64> = if total <= 400 { (0..=total + 1).collect() } else { cums.iter().chain([total].iter()).flat_map(|c| [c.saturating_sub(1), *c, c.saturating_add(1)]).collect() };
            l.sort();
            l.dedup();
            let f = (r, b.s.cycles, b.s.x, b.s.pc);
            (l, Some(f))
        }
        None => {
            if cums.last() == Some(&0) {
                // free instructions: endless by construction
                return Ok(());
            }
            ((0..40).chain([99]).collect(), None)
        }
    };
    // limits below what was used already
    for l in [0, 1, 500, 999] {
        one(b, &init, p.cost, 1000, l, &None, st, &mut hist).map_err(|m| format!("{} cycles start at 1000, limit {}: {}", show(), l, m))?;
    }
    for l in limits {
        one(b, &init, p.cost, 0, l, &full, st, &mut hist).map_err(|m| format!("{} limit={}: {}", show(), l, m))?;
        if p.wrap {
            one(b, &init, p.cost, u64::MAX - l, u64::MAX, &None, st, &mut hist).map_err(|m| format!("{} cycles start at MAX-{}: {}", show(), l, m))?;
            one(b, &init, p.cost, 1000, 1000u64.saturating_add(l), &None, st, &mut hist).map_err(|m| format!("{} cycles start at 1000, limit 1000+{}: {}", show(), l, m))?;
        }
    }
    st.sample(|| format!("{}: {:?} total {:?}", show(), full.as_ref().map(|f| &f.0), full.as_ref().map(|f| f.1)));
    Ok(())
}

/// Straight-line code of every length, with one event somewhere in it.
pub fn long(r: &mut Run, xlen: u32, isa: u8, version: u32, costs: &[Cost]) {
    let q = r.quick();
    let mut lens: Vec<usize> = if q { (1..=72).chain((76..=160).step_by(4)).collect() } else { (1..=300).collect() };
    lens.extend([255, 256, 257, 511, 512, 513, 1000]);

    let rx = [lens.len() as u64, 3, 7, 3];
    let n = rx.iter().product();
    for &cost in costs {
        r.phase(
            &format!("long blocks rv{} v{} {:?}", xlen, version, cost),
            n,
            16,
            || {
                let mut opt = Opt::new(isa, version, MEM);
                opt.ecall = EcallModel::Rich;
                opt.cost = Some(cost.func());
                Arena::new(Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &opt, xlen), LO, HI)
            },
            |w, i, st| {
                let d = digits(i, &rx);
                let (len, mix, ev) = (lens[d[0]], d[1], d[2]);
                let pos = [0, len / 2, len - 1][d[3]];
                if ev == 0 && d[3] > 0 {
                    return Ok(());
                }
                let mut c = Code::new();
                for k in 0..len {
                    if k == pos && ev > 0 {
                        match ev {
                            1 => c.w(it(3, 2, 6, 3, 0)),
                            2 => c.w(crate::asmb::st(2, 11, 6, 0)),
                            3 => c.w(br(1, 5, 5, 8)),
                            4 => c.w(ECALL),
                            5 => c.w(0xffff_ffff),
                            _ => c.w(EBREAK),
                        };
                        continue;
                    }
                    match if mix == 2 { k * 5 % 3 } else { mix } {
                        0 => c.w(addi(20, 20, (k % 50) as i32 + 1)),
                        1 => c.w(c_addi(20, (k % 20) as i32 + 1) as u32),
                        _ => c.w(crate::asmb::st(2, 8, 20, k as i32 % 16 * 4)),
                    };
                }
                c.exit();
                let pc = w.install(&[c.0])[0];
                let mut x = bg(xlen);
                x[3] = MEM as u64;
                x[5] = 7;
                x[6] = 5;
                x[8] = DATA;
                x[10] = 9;
                x[11] = pc;
                x[17] = 64;
                x[20] = 0;
                let show = || format!("{} instructions, mix {}, event {} at {}, {:?}", len, mix, ev, pos, cost);
                let init = Init { pc, x, fuel: len as u64 + 10 };
                let mut hist = vec![];
                let b = &mut w.b;
                let (sr, total) = match one(b, &init, cost, 0, u64::MAX, &None, st, &mut hist).map_err(|m| format!("{}: {}", show(), m))? {
                    Some(t) => t,
                    None => return Err(format!("{}: the model does not end", show())),
                };
                let full = Some((sr, b.s.cycles, b.s.x, b.s.pc));
                let at = |k: usize| hist[k * (hist.len() - 1) / 4].cycles;
                let mut l = vec![at(1), at(2), at(3), at(2) + 1, total.saturating_sub(1), total, total + 1];
                l.dedup();
                for l in l {
                    one(b, &init, cost, 0, l, &full, st, &mut hist).map_err(|m| format!("{} limit={}: {}", show(), l, m))?;
                }
                Ok(())
            },
        );
    }
}

/// Calls of every number whose handler charges cycles, at the limits around each charge.
fn charges(r: &mut Run, xlen: u32, version: u32) {
    let e: Vec<u64> = if xlen == 64 { edge64() } else { edge32() };
    let nums: Vec<u64> = (0..if r.quick() { 2048 } else { 4096 }).chain(e.iter().copied()).filter(|v| *v != 93).collect();
    let charge = [0u64, 1, 7, 4096, 1 << 32, u64::MAX - 3];
    let radix = [nums.len() as u64, charge.len() as u64, 3, 2, 2];
    r.phase(
        &format!("charging calls, {} bits, version {}", xlen, version),
        radix.iter().product(),
        64,
        || {
            let mut opt = Opt::new(5, version, MEM);
            opt.cost = Some(Cost::One.func());
            opt.hooks = vec![Hook {
                init: None,
                call: Arc::new(|m| {
                    let v = (m.reg(11) << 32) | (m.reg(12) & 0xffff_ffff);
                    match m.reg(13) {
                        0 => m.add_cycles_nc(v)?,
                        1 => m.add_cycles(v)?,
                        _ => m.set_cycles(v),
                    }
                    if m.reg(14) == 1 {
                        m.set_running(false);
                    }
                    Ok(true)
                }),
            }];
            let mut b = Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &opt, xlen);
            b.s.hooks = opt.hooks.clone();
            let mut a = Arena::new(b, LO, HI);
            let mut c = Code::new();
            c.w(addi(20, 20, 1)).w(ECALL).w(addi(5, 5, 3)).w(addi(17, 0, 93)).w(ECALL);
            let pc = a.install(&[c.0])[0];
            (a, pc)
        },
        |(w, pc), i, st| {
            let d = digits(i, &radix);
            let (n, v, how) = (nums[d[0]], charge[d[1]], d[2]);
            let c0 = [0u64, 1000][d[3]];
            // the exit code is that of the last exit
            let mut first = bg(xlen);
            first[17] = 1;
            first[11] = 0;
            first[12] = 0;
            first[13] = 0;
            first[14] = 0;
            let mut x = bg(xlen);
            x[11] = v >> 32;
            x[12] = v & 0xffff_ffff;
            x[13] = how as u64;
            x[14] = d[4] as u64;
            x[17] = n;
            let init = Init { pc: *pc, x, fuel: 20 };
            let mut hist = vec![];
            let at = if how == 2 { v } else { (c0 + 2).saturating_add(v) };
            let show = || format!("call {:#x}, {} {}{}, starting at {} cycles", n, ["charging (no check)", "charging", "setting"][how], v, if d[4] == 1 { " and stopping" } else { "" }, c0);
            let mut l = vec![c0, c0 + 1, c0 + 2, at.saturating_sub(1), at, at.saturating_add(1), at.saturating_add(2), at.saturating_add(3), u64::MAX];
            if c0 > 0 {
                // limits below what was used already
                l.extend([0, c0 / 2, c0 - 1]);
            }
            l.dedup();
            if d[4] == 1 {
                one(&mut w.b, &Init { pc: *pc, x: first, fuel: 20 }, Cost::One, 0, u64::MAX, &None, st, &mut hist)?;
            }
            for l in l {
                one(&mut w.b, &init, Cost::One, c0, l, &None, st, &mut hist).map_err(|m| format!("{}, limit {}: {}", show(), l, m))?;
            }
            Ok(())
        },
    );
}

/// Fused operations are charged their own cost, at every limit.
fn fused(r: &mut Run) {
    let mk_cost = |i: Instruction| -> u64 {
        match base_name(extract_opcode(i)) {
            "ADC" => 11,
            "SBB" => 12,
            "ADCS" => 13,
            "SBBS" => 14,
            "ADD3A" => 15,
            "ADD3B" => 16,
            "ADD3C" => 17,
            "WIDE_MUL" => 18,
            "WIDE_MULU" => 19,
            "WIDE_MULSU" => 20,
            "WIDE_DIV" => 21,
            "WIDE_DIVU" => 22,
            "CUSTOM_LOAD_IMM" => 23,
            "FAR_JUMP_REL" => 24,
            "FAR_JUMP_ABS" => 25,
            "ADDI" => 2,
            "EBREAK" => 3,
            _ => 1000,
        }
    };
    let t = |op, a, b, c| enc(op, a, b, c, 0);
    use Op::*;
    let pats: Vec<(u64, Vec<u32>)> = vec![
        (11, vec![t(ADD, 8, 8, 9), t(SLTU, 9, 8, 9), t(ADD, 8, 8, 10), t(SLTU, 10, 8, 10), t(OR, 9, 9, 10)]),
        (12, vec![t(SUB, 9, 8, 9), t(SLTU, 11, 8, 9), t(SUB, 8, 9, 10), t(SLTU, 10, 9, 8), t(OR, 9, 10, 11)]),
        (13, vec![t(ADD, 8, 9, 10), t(SLTU, 11, 8, 9)]),
        (13, vec![t(ADD, 8, 10, 9), t(SLTU, 11, 8, 10)]),
        (13, vec![t(ADD, 8, 8, 9), t(SLTU, 11, 8, 9)]),
        (14, vec![t(SUB, 8, 9, 10), t(SLTU, 11, 9, 10)]),
        (15, vec![t(ADD, 8, 9, 8), t(SLTU, 10, 8, 9), t(ADD, 11, 10, 12)]),
        (16, vec![t(ADD, 8, 9, 10), t(SLTU, 9, 8, 9), t(ADD, 11, 9, 12)]),
        (17, vec![t(ADD, 8, 9, 10), t(SLTU, 11, 8, 9), t(ADD, 11, 11, 12)]),
        (18, vec![t(MULH, 10, 8, 9), t(MUL, 11, 8, 9)]),
        (19, vec![t(MULHU, 10, 8, 9), t(MUL, 11, 8, 9)]),
        (20, vec![t(MULHSU, 10, 8, 9), t(MUL, 11, 8, 9)]),
        (21, vec![t(DIV, 10, 8, 9), t(REM, 11, 8, 9)]),
        (22, vec![t(DIVU, 10, 8, 9), t(REMU, 11, 8, 9)]),
        (23, vec![lui(9, 0x12345), enc(ADDIW, 9, 9, 0, 0x77)]),
        (23, vec![auipc(9, 0x12), addi(9, 9, 0x77)]),
        (24, vec![auipc(1, 0), jalr(1, 1, 8)]),
    ];
    let n = pats.len() as u64;
    let radix = [n, n, 18];
    r.phase(
        "fused operations at every limit",
        radix.iter().product(),
        32,
        || {
            let mut opt = Opt::new(2, 2, MEM).stop();
            opt.cost = Some(Arc::new(mk_cost));
            Arena::new(Bench::new(ALL64, &opt, 64), LO, HI)
        },
        |w, i, st| {
            let d = digits(i, &radix);
            let mut c = Code::new();
            for _ in 0..d[2] {
                c.w(addi(20, 20, 1));
            }
            c.ws(&pats[d[0]].1).ws(&pats[d[1]].1);
            let pc = w.install(&[c.0])[0];
            let total = 2 * d[2] as u64 + pats[d[0]].0 + pats[d[1]].0 + 3;
            let x = bg(64);
            for l in (0..=total).chain([u64::MAX]) {
                for e in w.b.engs.iter_mut() {
                    for k in 1..32 {
                        e.set_x(k, x[k]);
                    }
                    e.set_pc(pc);
                    e.set_cycles(0);
                    e.set_max(l);
                    let r = e.run();
                    st.traces += 1;
                    let bad = if l >= total { r.is_err() || e.cycles() != total } else { !is(&r, Kind::Cycles) || e.cycles() > l };
                    if bad {
                        return Err(format!("{:?}: {} padding, sequences {:08x?} and {:08x?}, limit {}: {:?} with {} cycles, expected total {}", e.ek(), d[2], pats[d[0]].1, pats[d[1]].1, l, r, e.cycles(), total));
                    }
                }
                st.states += 3;
                st.transitions += 2;
            }
            Ok(())
        },
    );
}

fn table(r: &mut Run) {
    let lo = insts::MINIMAL_OPCODE as u64;
    let n = insts::MAXIMUM_OPCODE as u64 - lo + 1;
    r.phase("cost tables, every operation", n, 64, || (), |_, i, st| {
        let op = (lo + i) as u16;
        let inst = blank_instruction(op);
        let name = ckb_vm::instructions::instruction_opcode_name(op);
        st.states += 1;
        st.traces += 2;
        let (a, b) = (ckb_vm::cost_model::estimate_cycles(inst), ckb_vm::cost_model::constant_cycles(inst));
        if a != estimate(name) {
            return Err(format!("estimated cost of {} is {} instead of {}", name, a, estimate(name)));
        }
        if b != 1 {
            return Err(format!("constant cost of {} is {}", name, b));
        }
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    table(r);
    fused(r);
    for (xlen, isa, version) in [(64, 5, 2), (64, 1, 1), (64, 0, 0), (32, 4, 2)] {
        long(r, xlen, isa, version, &[Cost::One, Cost::PerOp, Cost::Huge(Op::ADDI, 300), Cost::Huge(Op::ADDI, 1 << 40)]);
    }
    for (xlen, version) in [(64, 2), (64, 1), (64, 0), (32, 2)] {
        charges(r, xlen, version);
    }
    let mut plans = vec![];
    for (name, xlen, isa, version, eks) in [("rv64 v2", 64, 5u8, 2u32, ALL64), ("rv64 v1", 64, 1, 1, ALL64), ("rv64 v0", 64, 0, 0, ALL64), ("rv32 v2", 32, 4, 2, ALL32)] {
        for cost in [Cost::Zero, Cost::One, Cost::Estimate, Cost::Huge(Op::MUL, u64::MAX), Cost::Huge(Op::MUL, 1 << 63), Cost::Huge(Op::ADDI, u64::MAX / 3), Cost::Huge(Op::ECALL, u64::MAX - 1)] {
            plans.push(Plan { name: format!("{} {:?}", name, cost), xlen, isa, version, eks, len: 2, toks: toks(xlen, isa & 4 != 0), pads: vec![0, 14, 17], cost, wrap: true });
        }
        plans.push(Plan {
            name: format!("{} per operation", name),
            xlen,
            isa,
            version,
            eks,
            len: if version == 2 && !q { 4 } else { 3 },
            toks: toks(xlen, isa & 4 != 0),
            pads: if !q && version < 2 { vec![0, 14, 17] } else if q { vec![0, 14] } else { vec![0] },
            cost: Cost::PerOp,
            wrap: false,
        });
    }
    r.bound("calls of every number below 2048 (4096) and boundary numbers whose handler adds or sets 6 amounts of cycles, at every limit around the charge and the total");
    r.bound("straight-line code of 1 to 160 (thorough: 300) and around 256, 512 and 1000 instructions of 2 and 4 bytes, with a failing access, call, breakpoint, branch or undefined word at three places, at limits inside and around the total");
    r.bound("programs of 2 and 3 instructions (thorough: 4 for version 2) over the C03 alphabet with calls that add cycles, after 0, 14 or 17 straight-line instructions; every limit from 0 to the total plus one; after every stop the limit is raised and the run continued; 8 cost functions including free and overflowing ones; counter starting at 0, 1000 and just below 2^64");
    for p in &plans {
        let n = (p.toks.len() as u64).pow(p.len) * p.pads.len() as u64;
        r.phase(&p.name, n, 100, || mk(p), |w, i, st| case(w, p, i, st));
    }
}
