//! C12: macro-operation fusion never changes what a program computes. The model never fuses.
use crate::asmb::*;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use std::collections::HashMap;

const MEM: usize = 1 << 20;
const LO: u64 = 0x1_0000;
const HI: u64 = 0xf_0000;

type Map = HashMap<(Op, u8, u8, u8, i64), u16>;

pub struct Conf {
    pub name: &'static str,
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
    pub eks: &'static [EK],
}
pub const V2_64: Conf = Conf { name: "rv64 v2", xlen: 64, isa: 2, version: 2, eks: ALL64 };
pub const V2_64R: Conf = Conf { name: "rv64 v2 representative engines", xlen: 64, isa: 7, version: 2, eks: &[EK::I64Flat, EK::AsmDyn] };
const V1_64: Conf = Conf { name: "rv64 v1", xlen: 64, isa: 2, version: 1, eks: REP64 };
const V2_32: Conf = Conf { name: "rv32 v2", xlen: 32, isa: 2, version: 2, eks: &[EK::I32Flat, EK::T32Sparse] };

struct W {
    a: Arena,
    map: Map,
}
fn mk(c: &Conf) -> W {
    let opt = Opt::new(c.isa, c.version, MEM).stop();
    let b = Bench::new(c.eks, &opt, c.xlen);
    let map = compressions(b.s.c);
    W { a: Arena::new(b, LO, HI), map }
}

/// Register values: v selects one of a few vectors that reach every carry/borrow combination.
const NV: usize = 8;
fn vals(xlen: u32, v: usize) -> [u64; 6] {
    let top = 1u64 << (xlen - 1);
    let m = if xlen == 64 { u64::MAX } else { 0xffff_ffff };
    [
        [0, 0, 0, 0, 0, 0],
        [m, 1, 1, 2, 3, 4],
        [1, m, 1, m, 5, m],
        [m, m, m, m, m, m],
        [5, 7, 1, 9, 2, 6],
        [7, 5, m, 0, top, 1],
        [top, top, 1, m, 0, top],
        [top - 1, 3, m - 1, 1, 1, 0],
    ][v]
}
pub const RS: [u32; 6] = [8, 9, 10, 11, 12, 1];

/// Version 1 keeps two documented deviations of fusion.
fn v1_exception(ws: &[SI]) -> bool {
    for p in ws.windows(2) {
        if matches!(p[0].op, Op::LUI | Op::AUIPC) && p[1].op == Op::JALR && p[1].rs1 == p[0].rd && p[1].rd == 1 {
            return true;
        }
    }
    // subtract with borrow was fused whatever the second operand of its first comparison is
    if ws.len() >= 2 && ws[0].op == Op::SUB && ws[1].op == Op::SLTU && ws[0].rd == ws[0].rs2 && ws[1].rs1 == ws[0].rs1 && ws[1].rs2 != ws[0].rs2 {
        return true;
    }
    false
}

/// Run code at pc with the given registers on the model and every engine.
fn check(w: &mut Arena, pc: u64, x: &[u64; 32], limit: u64, st: &mut Stats, show: &dyn Fn() -> String) -> CaseRes {
    let b = &mut w.b;
    let s = &mut b.s;
    s.x = *x;
    s.pc = pc;
    s.cycles = 0;
    s.max_cycles = u64::MAX;
    s.lr = s.m(u64::MAX);
    let s0 = s.steps;
    let sr = match s.run(&|_| 1, true, limit) {
        Some(r) => r,
        None => {
            st.bump("endless (skipped)", 1);
            return Ok(());
        }
    };
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        for k in 1..32 {
            e.set_x(k, x[k]);
        }
        e.set_pc(pc);
        e.set_cycles(0);
        e.set_max(100_000);
        let r = e.run();
        cmp_end_block(e, s, &r, &sr).map_err(|m| format!("{} pc={:#x}: {}", show(), pc, m))?;
        if sr.is_ok() && e.cycles() > 5 * (s.steps - s0) {
            return Err(format!("{} pc={:#x}: {:?}: {} cycles for {} instructions", show(), pc, e.ek(), e.cycles(), s.steps - s0));
        }
    }
    st.bump(if sr.is_ok() { "completed" } else { "trapped" }, 1);
    count(st, s, s0, b.engs.len() as u64);
    Ok(())
}

fn x_for(xlen: u32, v: usize) -> [u64; 32] {
    let mut x = bg(xlen);
    let q = vals(xlen, v);
    for (k, r) in RS.iter().enumerate() {
        x[*r as usize] = q[k];
    }
    x[20] = 0;
    x
}
fn bytes(ws: &[u32]) -> Vec<u8> {
    let mut c = Code::new();
    c.ws(ws);
    c.0
}

/// A family of sequences given by index.
struct Fam {
    name: String,
    n: u64,
    gen: Box<dyn Fn(u64, &Map) -> Option<Vec<u32>> + Sync>,
    nv: usize,
}
const BATCH: u64 = 64;

fn run_fam(r: &mut Run, c: &'static Conf, f: &Fam) {
    let nb = (f.n + BATCH - 1) / BATCH;
    r.phase(&format!("{}: {}", c.name, f.name), nb, 64, || mk(c), |w, i, st| {
        let mut seqs = vec![];
        for k in i * BATCH..((i + 1) * BATCH).min(f.n) {
            if let Some(s) = (f.gen)(k, &w.map) {
                if c.version == 1 {
                    let d: Vec<SI> = s.iter().filter_map(|q| decode(*q, w.a.b.s.c)).collect();
                    if v1_exception(&d) {
                        st.bump("documented version 1 exception", 1);
                        continue;
                    }
                }
                seqs.push(s);
            }
        }
        if seqs.is_empty() {
            return Ok(());
        }
        let at = w.a.install(&seqs.iter().map(|s| bytes(s)).collect::<Vec<_>>());
        for (k, s) in seqs.iter().enumerate() {
            for v in 0..f.nv {
                let x = x_for(c.xlen, v);
                check(&mut w.a, at[k], &x, 64, st, &|| format!("{} {:08x?} values {}", c.name, s, v))?;
            }
        }
        st.sample(|| format!("{} {}: {:08x?}", c.name, f.name, seqs[0]));
        Ok(())
    });
}

fn fam_pairs(xlen: u32, regs: &'static [u32], nv: usize) -> Fam {
    let heads = [Op::ADD, Op::SUB, Op::MULH, Op::MULHU, Op::MULHSU, Op::DIV, Op::DIVU];
    let mut nexts = vec![Op::SLTU, Op::SLT, Op::MUL, Op::REM, Op::REMU, Op::ADD, Op::DIVU, Op::OR];
    if xlen == 64 {
        nexts.push(Op::MULW);
        nexts.push(Op::REMW);
    }
    let r = regs.len() as u64;
    let radix = vec![r, r, r, r, r, r, heads.len() as u64, nexts.len() as u64];
    let n = radix.iter().product();
    Fam {
        name: format!("all pairs of {} heads and {} followers, every register assignment over {:?}", heads.len(), nexts.len(), regs),
        n,
        nv,
        gen: Box::new(move |i, _| {
            let d = digits(i, &radix);
            Some(vec![
                enc(heads[d[6]], regs[d[0]], regs[d[1]], regs[d[2]], 0),
                enc(nexts[d[7]], regs[d[3]], regs[d[4]], regs[d[5]], 0),
            ])
        }),
    }
}
fn fam_triples(regs: &'static [u32], nv: usize) -> Fam {
    let r = regs.len() as u64;
    let radix = vec![r; 9];
    Fam {
        name: format!("add/sltu/add with every register assignment over {:?}", regs),
        n: radix.iter().product(),
        nv,
        gen: Box::new(move |i, _| {
            let d = digits(i, &radix);
            let g = |k: usize| regs[d[k]];
            Some(vec![enc(Op::ADD, g(0), g(1), g(2), 0), enc(Op::SLTU, g(3), g(4), g(5), 0), enc(Op::ADD, g(6), g(7), g(8), 0)])
        }),
    }
}

type Tri = (Op, usize, usize, usize);
/// add-with-carry and subtract-with-borrow over variables a..d
const ADC: [Tri; 5] = [(Op::ADD, 0, 0, 1), (Op::SLTU, 1, 0, 1), (Op::ADD, 0, 0, 2), (Op::SLTU, 2, 0, 2), (Op::OR, 1, 1, 2)];
const SBB: [Tri; 5] = [(Op::SUB, 1, 0, 1), (Op::SLTU, 3, 0, 1), (Op::SUB, 0, 1, 2), (Op::SLTU, 2, 1, 0), (Op::OR, 1, 2, 3)];
const ADD3A: [Tri; 3] = [(Op::ADD, 0, 1, 0), (Op::SLTU, 2, 0, 1), (Op::ADD, 3, 2, 4)];
const ADD3B: [Tri; 3] = [(Op::ADD, 0, 1, 2), (Op::SLTU, 1, 0, 1), (Op::ADD, 3, 1, 4)];
const ADD3C: [Tri; 3] = [(Op::ADD, 0, 1, 2), (Op::SLTU, 3, 0, 1), (Op::ADD, 3, 3, 4)];
const ADCS: [Tri; 2] = [(Op::ADD, 0, 1, 2), (Op::SLTU, 3, 0, 1)];
const ADCS2: [Tri; 2] = [(Op::ADD, 0, 2, 1), (Op::SLTU, 3, 0, 1)];
const SBBS: [Tri; 2] = [(Op::SUB, 0, 1, 2), (Op::SLTU, 3, 1, 2)];
const PATS: &[(&str, &[Tri], usize)] = &[
    ("adc", &ADC, 3),
    ("sbb", &SBB, 4),
    ("add3a", &ADD3A, 5),
    ("add3b", &ADD3B, 5),
    ("add3c", &ADD3C, 5),
    ("adcs", &ADCS, 4),
    ("adcs, operands swapped", &ADCS2, 4),
    ("sbbs", &SBBS, 4),
];

/// Every assignment of the pattern's variables, every way to change at most k register fields, and
/// every way to replace one operation; `masks`: also every way to use compressed encodings.
fn fam_mut(pi: usize, regs: &'static [u32], k: usize, nv: usize, masks: bool) -> Fam {
    let (name, pat, nvars) = PATS[pi];
    let muts = mutations(pat.len() * 3, k, regs.len());
    let alts = [Op::ADD, Op::SUB, Op::SLTU, Op::SLT, Op::OR, Op::XOR];
    let nm = muts.len() as u64;
    let nops = (pat.len() * alts.len()) as u64;
    let assigns = (regs.len() as u64).pow(nvars as u32);
    let nmask = if masks { 1u64 << pat.len() } else { 1 };
    let n = assigns * (nm + nops) * nmask;
    let radix = [nmask, nm + nops, assigns];
    Fam {
        name: format!("{}: every assignment over {:?}, up to {} changed fields or one changed operation{}", name, regs, k, if masks { ", every mix of compressed encodings" } else { "" }),
        n,
        nv,
        gen: Box::new(move |i, map| {
            let d = digits(i, &radix);
            let a = digits(d[2] as u64, &vec![regs.len() as u64; nvars]);
            let mut p: Vec<(Op, [u32; 3])> = pat.iter().map(|t| (t.0, [regs[a[t.1]], regs[a[t.2]], regs[a[t.3]]])).collect();
            if (d[1] as u64) < nm {
                for &(f, alt) in &muts[d[1]] {
                    p[f / 3].1[f % 3] = regs[alt];
                }
            } else {
                let m = d[1] - nm as usize;
                p[m / alts.len()].0 = alts[m % alts.len()];
            }
            let mut out = vec![];
            for (j, (op, r)) in p.iter().enumerate() {
                if d[0] >> j & 1 == 1 {
                    // a sequence without this compressed form is covered by another mask
                    let h = map.get(&(*op, r[0] as u8, r[1] as u8, r[2] as u8, 0))?;
                    out.push(*h as u32);
                } else {
                    out.push(enc(*op, r[0], r[1], r[2], 0));
                }
            }
            Some(out)
        }),
    }
}

/// lui / auipc followed by every instruction that may fuse with it.
fn fam_upper(xlen: u32) -> Fam {
    let mut up = vec![0u32, 1, 2, 0x10, 0x100, 0x7ff, 0x7fff0, 0x7ffff, 0x80000, 0x80001, 0xffff0, 0xffffe, 0xfffff];
    if xlen == 32 {
        up.retain(|u| *u != 2);
    }
    let lo = [0i32, 1, 2, 4, 8, 12, 13, 2046, 2047, -1, -2, -4, -8, -2047, -2048];
    let regs = [0u32, 1, 5, 8];
    let nexts: Vec<Op> = if xlen == 64 {
        vec![Op::JALR, Op::ADDI, Op::ADDIW, Op::XORI, Op::LD]
    } else {
        vec![Op::JALR, Op::ADDI, Op::XORI, Op::LW]
    };
    let radix = vec![2, up.len() as u64, lo.len() as u64, 4, 4, 4, nexts.len() as u64, 2];
    let n = radix.iter().product();
    Fam {
        name: format!("lui/auipc with {:?}, every register choice over {:?}, {} x {} immediates, compressed or not", nexts, regs, up.len(), lo.len()),
        n,
        nv: 1,
        gen: Box::new(move |i, map| {
            let d = digits(i, &radix);
            let (rd, rs, rd2) = (regs[d[3]], regs[d[4]], regs[d[5]]);
            let head = if d[0] == 0 { lui(rd, up[d[1]]) } else { auipc(rd, up[d[1]]) };
            let mut v = vec![head];
            let w = enc(nexts[d[6]], rd2, rs, 0, lo[d[2]]);
            if d[7] == 1 {
                let mut any = false;
                let imm = lo[d[2]] as i64;
                for (wd, key) in [(head, (if d[0] == 0 { Op::LUI } else { Op::AUIPC }, rd as u8, 0u8, 0u8, ((up[d[1]] << 12) as i32) as i64)), (w, (nexts[d[6]], rd2 as u8, rs as u8, 0, imm))] {
                    match map.get(&key) {
                        Some(h) => {
                            any = true;
                            if wd == head {
                                v[0] = *h as u32;
                            } else {
                                v.push(*h as u32);
                            }
                        }
                        None => {
                            if wd != head {
                                v.push(w);
                            }
                        }
                    }
                }
                if !any {
                    return None;
                }
            } else {
                v.push(w);
            }
            // landing ground for short jumps
            v.push(addi(21, 21, 1));
            v.push(EBREAK);
            v.push(addi(22, 22, 1));
            v.push(EBREAK);
            Some(v)
        }),
    }
}

/// One instance of each pattern.
pub fn instances(xlen: u32) -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![];
    for (_, p, _) in PATS {
        for regs in [[8u32, 9, 10, 11, 12], [10, 8, 12, 9, 11]] {
            v.push(p.iter().map(|t| enc(t.0, regs[t.1], regs[t.2], regs[t.3], 0)).collect());
        }
    }
    for (a, b) in [(Op::MULH, Op::MUL), (Op::MULHU, Op::MUL), (Op::MULHSU, Op::MUL), (Op::DIV, Op::REM), (Op::DIVU, Op::REMU)] {
        v.push(vec![enc(a, 10, 8, 9, 0), enc(b, 11, 8, 9, 0)]);
    }
    v.push(vec![lui(9, 0x12345), addi(9, 9, 0x678)]);
    v.push(vec![auipc(9, 0x12), addi(9, 9, -0x678)]);
    if xlen == 64 {
        v.push(vec![lui(9, 0x92345), enc(Op::ADDIW, 9, 9, 0, -0x678)]);
    }
    v.push(vec![auipc(1, 0), jalr(1, 1, 8)]);
    v.push(vec![auipc(1, 0), jalr(1, 1, 12), addi(21, 21, 1)]);
    v
}

struct PosW {
    w: W,
}
/// Positions: page ends with and without an executable successor, mid-sequence entry, trace limits.
fn positions(r: &mut Run, c: &'static Conf) {
    let inst = instances(c.xlen);
    let ni = inst.len() as u64;
    // next page: executable, plain, or the end of memory
    let radix = [ni, 3, 22, 4];
    let inst2 = inst.clone();
    r.phase(&format!("{}: across page ends", c.name), radix.iter().product(), 64, || PosW { w: mk(c) }, move |s, i, st| {
        let d = digits(i, &radix);
        let seq = &inst2[d[0]];
        let code = {
            let mut v = seq.clone();
            v.push(EBREAK);
            v.push(EBREAK);
            bytes(&v)
        };
        let end: u64 = if d[1] == 2 { MEM as u64 } else { 0xf_8000 };
        let a = end - 2 * (d[2] as u64);
        let b = &mut s.w.a.b;
        for e in b.engs.iter_mut() {
            e.fresh_decoder();
        }
        for p in (end / PAGE - 1)..=(end / PAGE).min(MEM as u64 / PAGE - 1) {
            b.clear_flag(p, EXEC);
        }
        let n = (code.len() as u64).min(MEM as u64 - a);
        if n > 0 {
            b.put_data(a, &code[..n as usize]);
        }
        b.set_flag(end / PAGE - 1, EXEC);
        if d[1] == 0 {
            b.set_flag(end / PAGE, EXEC);
        }
        for v in 0..3 {
            let x = x_for(c.xlen, v + 1);
            for entry in 0..=seq.len() as u64 {
                check(&mut s.w.a, a + 4 * entry, &x, 64, st, &|| format!("{} {:08x?} {} bytes before the end of a page followed by {}", c.name, seq, 2 * d[2], ["an executable page", "a writable page", "nothing"][d[1]]))?;
            }
        }
        Ok(())
    });
    // straight-line instructions in front, then the sequence, then a jump back into its middle
    let radix = [ni, 20, 7];
    let nb = radix.iter().product::<u64>();
    r.phase(&format!("{}: trace limits and entry in the middle", c.name), nb, 64, || mk(c), move |w, i, st| {
        let d = digits(i, &radix);
        let seq = &inst[d[0]];
        if d[2] > seq.len() {
            return Ok(());
        }
        let mut v = vec![];
        for _ in 0..d[1] {
            v.push(addi(21, 21, 1));
        }
        v.extend(seq);
        // once: x20 counts down, jump back to instruction d[2] of the sequence
        v.push(addi(20, 20, -1));
        v.push(br(5, 20, 0, -4 * (seq.len() as i32 - d[2] as i32 + 1)));
        let at = w.a.install(&[bytes(&v)])[0];
        for val in 0..4 {
            let mut x = x_for(c.xlen, val + 1);
            x[20] = 2;
            // directly, and with warm caches entered at the middle first
            let mid = at + 4 * (d[1] + d[2]) as u64;
            for pc in [at, mid, at] {
                check(&mut w.a, pc, &x, 400, st, &|| format!("{} {} straight-line instructions then {:08x?}, jumping back to instruction {}, values {}", c.name, d[1], seq, d[2], val))?;
            }
        }
        Ok(())
    });
    // all register values for one instance of each pattern
    let inst = instances(c.xlen);
    let vs: Vec<u64> = {
        let top = 1u64 << (c.xlen - 1);
        let m = if c.xlen == 64 { u64::MAX } else { 0xffff_ffff };
        vec![0, 1, 2, 0x1234, 0x7fff_ffff, 0x8000_0000, top - 1, top, top + 1, m - 1, m]
    };
    let nv = vs.len() as u64;
    let radix = [nv, nv, nv, ni];
    let nb = radix.iter().product::<u64>();
    r.phase(&format!("{}: operand values", c.name), nb / nv, nb / nv / ni, || (mk(c), None), move |(w, cur): &mut (W, Option<(usize, u64)>), j, st| {
        for q in 0..nv {
            let d = digits(j * nv + q, &radix);
            let at = match cur {
                Some((k, a)) if *k == d[3] => *a,
                _ => {
                    let a = w.a.install(&[bytes(&inst[d[3]])])[0];
                    *cur = Some((d[3], a));
                    a
                }
            };
            let mut x = x_for(c.xlen, 1);
            x[8] = vs[d[0]];
            x[9] = vs[d[1]];
            x[10] = vs[d[2]];
            x[11] = vs[(d[0] + 3 * d[1] + d[2]) % vs.len()];
            x[12] = vs[(d[1] + d[2]) % vs.len()];
            check(&mut w.a, at, &x, 64, st, &|| format!("{} {:08x?} x8={:#x} x9={:#x} x10={:#x}", c.name, inst[d[3]], x[8], x[9], x[10]))?;
        }
        Ok(())
    });
}

const R3: &[u32] = &[0, 8, 9];
const R4: &[u32] = &[0, 8, 9, 10];
const R5: &[u32] = &[0, 8, 9, 10, 11];
const R6: &[u32] = &[0, 8, 9, 10, 11, 12];

pub fn run(r: &mut Run) {
    let q = r.quick();
    r.bound("register fields over x0 and up to 5 further registers; 8 operand vectors reaching every carry and borrow combination, 11^3 operand values for one instance of each pattern");
    r.assume("version 1 (frozen): lui/auipc followed by jalr x1 through the register just written and a subtract-with-borrow sequence whose first comparison uses another second operand are documented exceptions and not compared");
    for c in [&V2_64, &V2_32, &V1_64] {
        positions(r, c);
        run_fam(r, c, &fam_upper(c.xlen));
    }
    for pi in 0..PATS.len() {
        run_fam(r, &V2_64R, &fam_mut(pi, R5, 1, 2, true));
    }
    run_fam(r, &V2_64R, &fam_pairs(64, if q { R4 } else { R6 }, if q { 3 } else { 4 }));
    run_fam(r, &V2_32, &fam_pairs(32, R4, 3));
    run_fam(r, &V2_64R, &fam_triples(R5, if q { 3 } else { 8 }));
    run_fam(r, &V2_64R, &fam_mut(0, R5, 2, NV, false));
    run_fam(r, &V2_64R, &fam_mut(1, R5, 2, if q { 4 } else { NV }, false));
    run_fam(r, &V1_64, &fam_mut(0, R5, 2, 3, false));
    run_fam(r, &V1_64, &fam_mut(1, R5, 2, 3, false));
    if !q {
        run_fam(r, &V2_64, &fam_mut(0, R4, 3, NV, false));
        run_fam(r, &V2_64R, &fam_mut(1, R5, 3, 3, false));
        run_fam(r, &V2_32, &fam_mut(0, R4, 2, NV, false));
        run_fam(r, &V2_32, &fam_mut(1, R5, 2, NV, false));
        run_fam(r, &V2_32, &fam_triples(R4, 4));
        let _ = R3;
    }
}
