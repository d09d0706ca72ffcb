//! C01: architectural effect of every instruction.
use crate::asmb::*;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::spec::*;

const CODE: u64 = 0x1_0000;
const DATA: u64 = 0x8_0000; // code slots end at 0x5_0000
const MEM: usize = 1 << 20;

/// One group of engines sharing a configuration.
#[derive(Clone, Copy)]
pub struct Grp {
    pub name: &'static str,
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
    pub eks: &'static [EK],
}
pub const GROUPS: &[Grp] = &[
    Grp { name: "rv64 v2 IMCBA+MOP", xlen: 64, isa: 7, version: 2, eks: ALL64 },
    Grp { name: "rv64 v1 IMCB", xlen: 64, isa: 1, version: 1, eks: ALL64 },
    Grp { name: "rv64 v0 IMC", xlen: 64, isa: 0, version: 0, eks: ALL64 },
    Grp { name: "rv32 v2 IMCA", xlen: 32, isa: 4, version: 2, eks: ALL32 },
    Grp { name: "rv32 v2 IMCB", xlen: 32, isa: 1, version: 2, eks: ALL32 },
    Grp { name: "rv32 v0 IMC", xlen: 32, isa: 0, version: 0, eks: ALL32 },
];

pub fn ops_for(g: &Grp) -> Vec<Op> {
    ALL_OPS
        .iter()
        .copied()
        .filter(|&op| {
            if matches!(op, Op::ECALL | Op::EBREAK) {
                return false;
            }
            let w = enc(op, 1, 2, 3, 4);
            // bit-manipulation encodings that RV32 does not have
            if g.xlen == 32 && (matches!(w & 0x7f, 0x1b | 0x3b) || op == Op::REV8) {
                return false;
            }
            decode(w, Cfg { xlen: g.xlen, isa: g.isa, version: g.version }).map_or(false, |i| i.op == op)
        })
        .collect()
}

fn is_mem(op: Op) -> bool {
    matches!(form(op).0, Form::Ld | Form::St | Form::Amo | Form::Lr)
}

pub struct W {
    pub b: Bench,
    pub slot: u64,
    data: u64,
    undo: Vec<u64>,
}
pub fn mkw(g: &Grp) -> W {
    let opt = Opt::new(g.isa, g.version, MEM).stop();
    W { b: Bench::new(g.eks, &opt, g.xlen), slot: 0, data: DATA, undo: vec![] }
}
/// Install `inst` with ebreaks where control may go; returns the address of the instruction.
fn install(w: &mut W, inst: u32, op: Op) -> u64 {
    let a = CODE + w.slot * 64;
    w.slot += 1;
    if w.slot == 4096 {
        // the addresses are about to be reused: the host must discard decoded code
        w.slot = 0;
        for e in w.b.engs.iter_mut() {
            e.fresh_decoder();
        }
    }
    let mut c = Code::new();
    c.w(inst);
    if matches!(form(op).0, Form::Br | Form::J) {
        for _ in 0..7 {
            c.w(EBREAK);
        }
    } else {
        c.w(EBREAK);
        c.w(EBREAK);
    }
    w.b.put_code(a, &c.0);
    a
}

/// A machine whose whole memory, except for a data page at 0, is filled with breakpoints: any
/// control transfer, wherever it goes, ends the run right there.
const FAR_GAP: u64 = 0x2440;
fn mkfar(g: &Grp, mem: usize) -> W {
    let opt = Opt::new(g.isa, g.version, mem).stop();
    let mut b = Bench::new(g.eks, &opt, g.xlen);
    let fill: Vec<u8> = C_EBREAK.to_le_bytes().iter().copied().cycle().take(mem - 0x1000).collect();
    b.put_code(0x1000, &fill);
    W { b, slot: 0, data: 0, undo: vec![] }
}
fn clean_far(w: &mut W) {
    w.slot = 0;
    for a in std::mem::take(&mut w.undo) {
        w.b.put_code(a, &[2, 0x90, 2, 0x90]);
    }
    for e in w.b.engs.iter_mut() {
        e.fresh_decoder();
    }
}
/// Put one instruction in the middle of a stretch of breakpoints.
fn install_far(w: &mut W, inst: u32) -> u64 {
    if w.slot == 105 {
        clean_far(w);
    }
    let a = 0x1000 + 0x1180 + w.slot * FAR_GAP;
    w.slot += 1;
    let mut c = Code::new();
    c.w(inst);
    w.b.put_code(a, &c.0);
    w.undo.push(a);
    a
}

/// Run one instruction with the given registers on every engine and the model.
fn exec(w: &mut W, pc: u64, regs: &[u64; 32], lr: Option<u64>, memop: bool, st: &mut Stats) -> CaseRes {
    let data = w.data;
    let b = &mut w.b;
    const PAT: [u8; 32] = [
        0x81, 0x02, 0xf3, 0x04, 0x85, 0x96, 0x77, 0x88, 0x19, 0xaa, 0x7b, 0xfc, 0x0d, 0xee, 0x8f, 0x70, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x80, 0x00, 0x00, 0x00, 0x80,
    ];
    let s = &mut b.s;
    let win = data + 0x800 - 16;
    let s0 = s.steps;
    s.x = *regs;
    s.pc = pc;
    if memop {
        s.mem.poke(win, &PAT);
        s.mem.poke(win + 32, &PAT);
    }
    if let Some(l) = lr {
        s.lr = l;
    }
    let sr = s.run(&|_| 1, true, 10).unwrap();
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        for k in 1..32 {
            e.set_x(k, regs[k]);
        }
        e.set_pc(pc);
        if memop {
            e.store_bytes(win, &PAT).unwrap();
            e.store_bytes(win + 32, &PAT).unwrap();
        }
        if let Some(l) = lr {
            e.set_lr(l);
        }
        let r = e.run();
        cmp_end(e, s, &r, &sr)?;
        if memop {
            let m = e.load_bytes(win, 64).unwrap();
            for k in 0..64 {
                if m[k] != s.mem.rd8(win + k as u64) {
                    return Err(format!("{:?}: memory byte {:#x} = {:#x} instead of {:#x}", e.ek(), win + k as u64, m[k], s.mem.rd8(win + k as u64)));
                }
            }
            if lr.is_some() && e.lr() != s.lr {
                return Err(format!("{:?}: reservation {:#x} instead of {:#x}", e.ek(), e.lr(), s.lr));
            }
        }
    }
    count(st, s, s0, b.engs.len() as u64);
    Ok(())
}

pub fn values(g: &Grp, quick: bool, op: Op) -> (Vec<u64>, Vec<u64>) {
    let m = if g.xlen == 64 { u64::MAX } else { 0xffff_ffff };
    let mut a = if g.xlen == 64 { edge64() } else { edge32() };
    if quick {
        for k in 0..g.xlen {
            a.push(1u64 << k);
        }
    } else {
        for k in 0..g.xlen {
            for d in [0u64.wrapping_sub(1), 0, 1] {
                a.push((1u64 << k).wrapping_add(d));
                a.push((!(1u64 << k)).wrapping_add(d) & m);
            }
        }
    }
    let mut b = a.clone();
    use Op::*;
    if matches!(op, SLL | SRL | SRA | SLLW | SRLW | SRAW | ROL | ROR | ROLW | RORW | BINV | BSET | BCLR | BEXT) {
        b.extend(0..=64);
    }
    a.sort();
    a.dedup();
    b.sort();
    b.dedup();
    (a, b)
}

/// Bit patterns that exercise counting, reversing and extending.
fn shapes(xlen: u32) -> Vec<u64> {
    let m = if xlen == 64 { u64::MAX } else { 0xffff_ffff };
    let mut v = vec![];
    for i in 0..xlen {
        for j in i..xlen {
            let run = (m >> (xlen - 1 - (j - i))) << i;
            let two = 1u64 << i | 1u64 << j;
            v.extend([run & m, !run & m, two, !two & m]);
        }
    }
    let lanes = xlen / 8;
    for c in 0..3u32.pow(lanes) {
        let (mut x, mut c) = (0u64, c);
        for _ in 0..lanes {
            x = x << 8 | [0, 0x01, 0x80][(c % 3) as usize];
            c /= 3;
        }
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}

pub fn run(r: &mut Run) {
    let quick = r.quick();
    r.bound("operand alphabet: boundary values of both widths and every 2^k and, for distinct registers (thorough: always), every 2^k and its complement, each -1/+0/+1, full cross product for two-operand instructions; all pairs of values within 64 (thorough: 256) of zero and near the signed ends; one-operand instructions on every run of ones or zeros, every two bits and every choice of {0, 1, 0x80} per byte");
    r.bound("register numbers: all 32x32x32 (rd,rs1,rs2); aliasing patterns of {distinct, rd=rs1, rd=rs2, rs1=rs2, all equal, x0 destination, x0 sources}");
    r.bound("branch offsets: all 4095 non-zero x 6 branches x {=,<,>}; jump offsets: thorough all 2^20-1, quick those near powers of two and every multiple of 0x1fe, with targets inside and outside memory; compressed instructions: all 2^16 halfwords that decode, with boundary operands");
    r.bound("12-bit immediates and shift amounts: all; 20-bit upper immediates: all");
    r.assume("RV32 bit-manipulation: only encodings RV32 defines (the word-sized and rev8 encodings of RV64 are not judged on 32-bit machines)");
    for g in GROUPS {
        let ops = ops_for(g);
        // ---- operand values x alias patterns
        let pats: &[(u32, u32, u32)] = &[(5, 6, 7), (6, 6, 7), (7, 6, 7), (5, 6, 6), (6, 6, 6), (0, 6, 7), (5, 0, 7), (5, 6, 0), (31, 30, 29), (1, 2, 8)];
        let n = (ops.len() * pats.len()) as u64;
        let ops2 = ops.clone();
        r.phase(&format!("operands {}", g.name), n, 8, || mkw(g), |w, i, st| {
            let op = ops2[i as usize / pats.len()];
            let (rd, rs1, rs2) = pats[i as usize % pats.len()];
            let f = form(op).0;
            if matches!(f, Form::N | Form::U) {
                return Ok(());
            }
            let imm = match f { Form::Br | Form::J => 16, Form::Jr => 0, Form::Ld | Form::St => 0, _ => 5 };
            if f == Form::J && (rs1, rs2) != (6, 7) && rs1 != 30 {
                return Ok(());
            }
            let inst = enc(op, rd, rs1, rs2, imm);
            let pc = install(w, inst, op);
            let (va, vb) = values(g, quick && (rd, rs1, rs2) != (5, 6, 7), op);
            let memop = is_mem(op);
            let m = if g.xlen == 64 { u64::MAX } else { 0xffff_ffff };
            let two = matches!(f, Form::R | Form::Br);
            let avs: Vec<u64> = match f {
                Form::Ld | Form::St | Form::Amo | Form::Lr => (0..20).map(|k| DATA + 0x800 - 8 + k).collect(),
                Form::Jr => vec![pc + 4, pc + 5, pc + 8, pc + 9],
                Form::J => vec![0],
                _ => va,
            };
            let bvs: Vec<u64> = if two || matches!(f, Form::St | Form::Amo) { vb } else { vec![0x5555] };
            for &a in &avs {
                for &bv in &bvs {
                    let mut x = bg(g.xlen);
                    // address operands win over data operands when registers coincide
                    x[rs2 as usize] = bv & m;
                    x[rs1 as usize] = a & m;
                    x[0] = 0;
                    if memop && rs1 == 0 {
                        continue;
                    }
                    if matches!(f, Form::Jr) && rs1 == 0 {
                        continue;
                    }
                    let lrs: &[Option<u64>] = if matches!(op, Op::SC_W | Op::SC_D) { &[Some(0), Some(1)] } else if matches!(op, Op::LR_W | Op::LR_D) { &[Some(2)] } else { &[None] };
                    for l in lrs {
                        let l = l.map(|k| match k { 0 => a, 1 => a ^ 4, _ => m });
                        exec(w, pc, &x, l, memop, st).map_err(|e| format!("{} {:?} inst {:#010x} a={:#x} b={:#x}: {}", g.name, op, inst, x[rs1 as usize], x[rs2 as usize], e))?;
                    }
                }
            }
            st.sample(|| format!("{} {:?} rd=x{} rs1=x{} rs2=x{}: {}x{} operand pairs on {} engines", g.name, op, rd, rs1, rs2, avs.len(), bvs.len(), g.eks.len()));
            Ok(())
        });
        // ---- one-operand instructions: every contiguous run of ones and zeros, every two bits, and
        // every choice of a byte from a few in every lane
        let uops: Vec<Op> = ops.iter().copied().filter(|o| form(*o).0 == Form::R1).collect();
        let uo = uops.clone();
        let uv = shapes(g.xlen);
        r.phase(&format!("one operand {}", g.name), (uops.len() * uv.len().div_ceil(64)) as u64, 8, || mkw(g), |w, i, st| {
            let op = uo[i as usize % uo.len()];
            let k = i as usize / uo.len() * 64;
            for (rd, rs) in [(5, 6), (6, 6)] {
                let inst = enc(op, rd, rs, 0, 0);
                let pc = install(w, inst, op);
                for v in &uv[k..(k + 64).min(uv.len())] {
                    let mut x = bg(g.xlen);
                    x[6] = *v;
                    exec(w, pc, &x, None, false, st).map_err(|e| format!("{} {:?} inst {:#010x} a={:#x}: {}", g.name, op, inst, v, e))?;
                }
            }
            Ok(())
        });
        // ---- two-operand instructions on all pairs of small values, near zero and near the ends
        let tops: Vec<Op> = ops.iter().copied().filter(|o| form(*o).0 == Form::R).collect();
        let to = tops.clone();
        let reach: u64 = if quick { 64 } else { 256 };
        let spread: Vec<u64> = {
            let m = if g.xlen == 64 { u64::MAX } else { 0xffff_ffff };
            let mut v: Vec<u64> = (0..2 * reach).map(|k| k.wrapping_sub(reach) & m).collect();
            v.extend((0..8).map(|k| ((m >> 1) - 3).wrapping_add(k) & m));
            v.extend((0..8).map(|k| 0x8000_0000u64 - 4 + k));
            v.extend((0..8).map(|k| (0xffff_8000u64 << 16).wrapping_sub(4).wrapping_add(k) & m));
            v.sort();
            v.dedup();
            v
        };
        r.phase(&format!("small operands {}", g.name), (tops.len() * spread.len()) as u64, 16, || mkw(g), |w, i, st| {
            let op = to[i as usize % to.len()];
            let a = spread[i as usize / to.len()];
            let inst = enc(op, 5, 6, 7, 0);
            let pc = install(w, inst, op);
            for b in &spread {
                let mut x = bg(g.xlen);
                x[6] = a;
                x[7] = *b;
                exec(w, pc, &x, None, false, st).map_err(|e| format!("{} {:?} inst {:#010x} a={:#x} b={:#x}: {}", g.name, op, inst, a, b, e))?;
            }
            Ok(())
        });
        // ---- register numbers
        let ops2 = ops.clone();
        r.phase(&format!("registers {}", g.name), ops.len() as u64 * 32, 8, || mkw(g), |w, i, st| {
            let op = ops2[i as usize / 32];
            let rd = (i % 32) as u32;
            let f = form(op).0;
            if matches!(f, Form::N) {
                return Ok(());
            }
            for rs1 in 0..32u32 {
                let rs2s: Vec<u32> = (0..32).collect();
                for rs2 in rs2s {
                    if (matches!(f, Form::U | Form::J)) && rs1 > 0 {
                        continue;
                    }
                    let memop = is_mem(op);
                    if (memop || f == Form::Jr) && rs1 == 0 {
                        continue;
                    }
                    let imm = match f { Form::Br | Form::J => 16, Form::Jr => 4, Form::Ld | Form::St => 8, _ => 13 };
                    let inst = enc(op, rd, rs1, rs2, imm);
                    let pc = install(w, inst, op);
                    let mut x = bg(g.xlen);
                    if memop {
                        x[rs1 as usize] = DATA + 0x800;
                    }
                    if f == Form::Jr {
                        x[rs1 as usize] = pc;
                    }
                    x[0] = 0;
                    exec(w, pc, &x, None, memop, st).map_err(|e| format!("{} {:?} inst {:#010x} rd=x{} rs1=x{} rs2=x{}: {}", g.name, op, inst, rd, rs1, rs2, e))?;
                }
            }
            Ok(())
        });
        // ---- immediates
        let iops: Vec<Op> = ops.iter().copied().filter(|o| matches!(form(*o).0, Form::I | Form::Ld | Form::St | Form::Sh6 | Form::Sh5 | Form::Jr)).collect();
        let io = iops.clone();
        r.phase(&format!("immediates {}", g.name), iops.len() as u64 * 64, 8, || mkw(g), |w, i, st| {
            let op = io[i as usize / 64];
            let hi = (i % 64) as i32;
            let f = form(op).0;
            for lo in 0..64 {
                let imm = (hi * 64 + lo) - 2048;
                match f {
                    Form::Sh6 if !(0..g.xlen as i32).contains(&imm) => continue,
                    Form::Sh5 if !(0..32).contains(&imm) => continue,
                    _ => {}
                }
                let inst = enc(op, 5, 6, 7, imm);
                let pc = install(w, inst, op);
                let vals: Vec<u64> = match f {
                    Form::Ld | Form::St => vec![(DATA + 0x800 + 4).wrapping_sub(imm as i64 as u64)],
                    Form::Jr => vec![(pc + 4).wrapping_sub(imm as i64 as u64)],
                    _ => vec![0, 1, u64::MAX, 0x7fff_ffff, 0x8000_0000, 0x7fff_ffff_ffff_ffff, 0x0123_4567_89ab_cdef, imm as i64 as u64, (imm as i64 + 1) as u64, 0xdead_beef_cafe_0ff5],
                };
                for v in vals {
                    let mut x = bg(g.xlen);
                    x[6] = if g.xlen == 32 { v & 0xffff_ffff } else { v };
                    x[7] = 0x8182_8384_8586_8788 & if g.xlen == 32 { 0xffff_ffff } else { u64::MAX };
                    exec(w, pc, &x, None, is_mem(op), st).map_err(|e| format!("{} {:?} inst {:#010x} imm={} a={:#x}: {}", g.name, op, inst, imm, x[6], e))?;
                }
            }
            Ok(())
        });
        // ---- upper immediates
        let us: Vec<u32> = (0..1 << 20).collect();
        let us2 = us.clone();
        r.phase(&format!("upper immediates {}", g.name), us.len() as u64, 256, || mkw(g), |w, i, st| {
            for op in [Op::LUI, Op::AUIPC] {
                let inst = enc(op, 9, 0, 0, us2[i as usize] as i32);
                let pc = install(w, inst, op);
                let x = bg(g.xlen);
                exec(w, pc, &x, None, false, st).map_err(|e| format!("{} {:?} inst {:#010x}: {}", g.name, op, inst, e))?;
            }
            Ok(())
        });
        // ---- every branch offset
        let brs: Vec<Op> = ops.iter().copied().filter(|o| form(*o).0 == Form::Br).collect();
        let bo = brs.clone();
        r.phase(&format!("branch offsets {}", g.name), 4096, 64, || mkfar(g, MEM), |w, i, st| {
            let imm = i as i32 * 2 - 4096;
            for op in &bo {
                if imm == 0 {
                    continue; // an endless loop when taken
                }
                let inst = enc(*op, 0, 6, 7, imm);
                let pc = install_far(w, inst);
                for (a, b) in [(1u64, 1u64), (1, 2), (2, 1)] {
                    let mut x = bg(g.xlen);
                    x[6] = a;
                    x[7] = b;
                    exec(w, pc, &x, None, false, st).map_err(|e| format!("{} {:?} inst {:#010x} offset {} a={} b={}: {}", g.name, op, inst, imm, a, b, e))?;
                }
            }
            Ok(())
        });
        // ---- jump offsets, including targets outside the memory
        let js: Vec<i32> = (-(1 << 19)..1 << 19).map(|k: i32| k * 2).filter(|o| *o != 0 && (!quick || o.abs() < 128 || (o.abs() + 4) & o.abs() & !15 == 0 || o % 0x1fe == 0)).collect();
        let jo = js.clone();
        r.phase(&format!("jump offsets {}", g.name), js.len() as u64, 256, || mkfar(g, 3 << 20), |w, i, st| {
            let off = jo[i as usize];
            for rd in [0u32, 5] {
                let pc = 0x18_0000 + w.slot * 16;
                w.slot += 1;
                let inst = jal(rd, off);
                w.b.put_code(pc, &inst.to_le_bytes());
                w.undo.push(pc);
                let x = bg(g.xlen);
                exec(w, pc, &x, None, false, st).map_err(|e| format!("{} jal x{},{} at {:#x}: {}", g.name, rd, off, pc, e))?;
                // a breakpoint decoded inside the slots must not survive the next installation there
                let t = pc.wrapping_add(off as i64 as u64);
                if w.slot == 2000 || (t >= 0x17_ff00 && t < 0x18_8000) {
                    clean_far(w);
                }
            }
            Ok(())
        });
        // ---- compressed instructions
        r.phase(&format!("compressed {}", g.name), 1 << 13, 64, || mkfar(g, MEM), |w, i, st| {
            let c = Cfg { xlen: g.xlen, isa: g.isa, version: g.version };
            for hi in 0..8u32 {
                let h = hi << 13 | i as u32;
                if h & 3 == 3 {
                    continue;
                }
                let si = match decode(h, c) {
                    Some(s) => s,
                    None => continue,
                };
                if matches!(si.op, Op::ECALL) {
                    continue;
                }
                let memop = is_mem(si.op);
                let jr = form(si.op).0 == Form::Jr;
                if matches!(form(si.op).0, Form::Br | Form::J) && si.imm == 0 {
                    continue;
                }
                let pc = install_far(w, h);
                let m = if g.xlen == 64 { u64::MAX } else { 0xffff_ffff };
                let vs: &[u64] = if memop { &[0x7fc, 0x801] } else if jr { &[8, 9] } else { &[0, 1, 0x8000_0000, u64::MAX, 0x8123_4567_89ab_cdef] };
                for v in vs {
                    let mut x = bg(g.xlen);
                    if form(si.op).0 == Form::R {
                        x[si.rs2 as usize] = 0x7edc_ba98_0000_0000 ^ 0x9abc_def1;
                        x[si.rs2 as usize] &= m;
                    }
                    if memop || jr {
                        let base = if jr { pc } else { 0 };
                        x[si.rs1 as usize] = base.wrapping_add(*v).wrapping_sub(si.imm as u64) & m;
                    } else {
                        x[si.rs1 as usize] = v & m;
                    }
                    x[0] = 0;
                    if memop && si.rs1 == 0 {
                        continue;
                    }
                    exec(w, pc, &x, None, memop, st).map_err(|e| format!("{} compressed {:#06x} = {:?} rs1={:#x}: {}", g.name, h, si, x[si.rs1 as usize], e))?;
                }
            }
            Ok(())
        });
    }
}
