//! C03: every execution engine runs every short program like the one-instruction-at-a-time model.
use crate::asmb::*;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::spec::*;
use ckb_vm::SupportMachine;

const MEM: usize = 1 << 20;
const CODE: u64 = 0x1_0000; // code slots up to 0x9_0000
const DATA: u64 = 0xa_0800;
const WIN: usize = 64;

#[derive(Clone, Copy)]
pub struct Tok(pub &'static str, pub u32);

pub fn tokens(xlen: u32, a: bool) -> Vec<Tok> {
    let mut v = vec![
        Tok("addi x5,x5,1", addi(5, 5, 1)),
        Tok("add x6,x5,x6", add(6, 5, 6)),
        Tok("sub x7,x6,x5", sub(7, 6, 5)),
        Tok("c.addi x5,-3", c_addi(5, -3) as u32),
        Tok("lui x5,0x80001", lui(5, 0x80001)),
        Tok("auipc x7,0", auipc(7, 0)),
        Tok("lw x6,0(x8)", enc(Op::LW, 6, 8, 0, 0)),
        Tok("lbu x6,9(x8)", enc(Op::LBU, 6, 8, 0, 9)),
        Tok("sb x5,3(x8)", enc(Op::SB, 0, 8, 5, 3)),
        Tok("sw x7,8(x8)", enc(Op::SW, 0, 8, 7, 8)),
        Tok("beq x5,x6,+8", br(0, 5, 6, 8)),
        Tok("bne x5,x6,+6", br(1, 5, 6, 6)),
        Tok("blt x6,x5,-4", br(4, 6, 5, -4)),
        Tok("bne x9,x0,-8", br(1, 9, 0, -8)),
        Tok("addi x9,x9,-1", addi(9, 9, -1)),
        Tok("jal x1,+8", jal(1, 8)),
        Tok("jalr x0,x1,0", jalr(0, 1, 0)),
        Tok("jalr x1,x1,0", jalr(1, 1, 0)),
        Tok("c.j +4", c_j(4) as u32),
        Tok("mul x5,x6,x7", enc(Op::MUL, 5, 6, 7, 0)),
        Tok("div x7,x5,x6", enc(Op::DIV, 7, 5, 6, 0)),
        Tok("ecall", ECALL),
        Tok("addi x17,x0,93", addi(17, 0, 93)),
        Tok("illegal", 0xffff_ffff),
        Tok("lw x6,0(x10)", enc(Op::LW, 6, 10, 0, 0)),
        Tok("sw x6,0(x11)", enc(Op::SW, 0, 11, 6, 0)),
        Tok("ebreak", EBREAK),
        Tok("jalr x5,x5,0", jalr(5, 5, 0)),
    ];
    if xlen == 64 {
        v.push(Tok("sd x6,16(x8)", enc(Op::SD, 0, 8, 6, 16)));
        v.push(Tok("ld x5,8(x8)", enc(Op::LD, 5, 8, 0, 8)));
        v.push(Tok("addiw x6,x5,-1", enc(Op::ADDIW, 6, 5, 0, -1)));
    }
    if a {
        v.push(Tok("lr.w x5,(x8)", enc(Op::LR_W, 5, 8, 0, 0)));
        v.push(Tok("sc.w x6,x5,(x8)", enc(Op::SC_W, 6, 8, 5, 0)));
        v.push(Tok("amoadd.w x7,x5,(x8)", enc(Op::AMOADD_W, 7, 8, 5, 0)));
    }
    v
}

struct W {
    b: Bench,
    slot: u64,
    spare: Spec,
}
struct Plan {
    name: String,
    xlen: u32,
    isa: u8,
    version: u32,
    eks: &'static [EK],
    len: u32,
    toks: Vec<Tok>,
    pads: Vec<u64>,
    offs: u64,
}

fn mk(p: &Plan) -> W {
    let opt = Opt::new(p.isa, p.version, MEM).logging();
    let b = Bench::new(p.eks, &opt, p.xlen);
    let spare = b.s.clone();
    W { b, slot: 0, spare }
}

const PAT: [u8; WIN] = {
    let mut p = [0u8; WIN];
    let mut k = 0;
    while k < WIN {
        p[k] = (k as u8).wrapping_mul(37) ^ 0x5a;
        k += 1;
    }
    p
};

fn program(p: &Plan, i: u64) -> (Vec<u32>, u64) {
    let t = p.toks.len() as u64;
    let pads = p.pads.len() as u64;
    let pad = p.pads[(i % pads) as usize];
    let mut r = i / pads;
    let mut v = vec![];
    for _ in 0..pad {
        v.push(addi(20, 20, 1));
    }
    for _ in 0..p.len {
        v.push(p.toks[(r % t) as usize].1);
        r /= t;
    }
    (v, pad)
}
fn show(p: &Plan, i: u64) -> String {
    let t = p.toks.len() as u64;
    let pads = p.pads.len() as u64;
    let mut r = i / pads;
    let mut s = format!("{} pad={} [", p.name, p.pads[(i % pads) as usize]);
    for _ in 0..p.len {
        s.push_str(p.toks[(r % t) as usize].0);
        s.push_str("; ");
        r /= t;
    }
    s.push(']');
    s
}

/// Fuel in cycles; terminating programs of this alphabet use far less.
const BUDGET: u64 = 600;

fn case(w: &mut W, p: &Plan, i: u64, st: &mut Stats) -> CaseRes {
    let (words, _) = program(p, i);
    let mut c = Code::new();
    c.ws(&words);
    c.exit();
    let base = CODE + w.slot * 128;
    w.slot += 1;
    if w.slot == 4000 {
        w.slot = 0;
        for e in w.b.engs.iter_mut() {
            e.fresh_decoder();
        }
    }
    // offs moves the program so that instructions straddle page ends
    let base = base + p.offs;
    w.b.put_code(base, &c.0);
    let exit_pc = base + c.0.len() as u64 - 8;
    let b = &mut w.b;
    let s = &mut b.s;
    let mut x = bg(p.xlen);
    x[1] = exit_pc;
    x[5] = 7;
    x[6] = 5;
    x[8] = DATA;
    x[9] = 2;
    x[10] = 0x7fff_f000;
    x[11] = base;
    x[17] = 64;
    x[20] = 0;
    let s0 = s.steps;
    let reset_spec = |s: &mut Spec| {
        s.x = x;
        s.pc = base;
        s.lr = if p.xlen == 64 { u64::MAX } else { 0xffff_ffff };
        s.mem.poke(DATA, &PAT);
        s.log.clear();
        s.cycles = 0;
        s.max_cycles = BUDGET;
    };
    reset_spec(s);
    let sr = s.run(&|i| cost_of(i.op), false, 100_000).unwrap();
    let exceeded = matches!(&sr, Err(t) if t.0.contains(&Kind::Cycles));
    let nruns = 2;
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        // second run: decoded instructions and traces are already cached
        for run in 0..nruns {
            for k in 1..32 {
                e.set_x(k, x[k]);
            }
            e.set_pc(base);
            e.set_lr(u64::MAX);
            e.set_cycles(0);
            e.set_max(BUDGET);
            e.store_bytes(DATA, &PAT).unwrap();
            b.opt.log.lock().unwrap().clear();
            let r = e.run();
            let fail = |m: String| format!("{} run {}: {}", show(p, i), run, m);
            if exceeded {
                if !is(&r, Kind::Cycles) {
                    return Err(fail(format!("{:?}: ended with {:?}, the model exceeds the cycle limit", e.ek(), r)));
                }
                continue;
            }
            if !cmp_end_block(e, s, &r, &sr).map_err(fail)? {
                continue;
            }
            if sr.is_ok() && e.cycles() != s.cycles {
                return Err(fail(format!("{:?}: {} cycles instead of {}", e.ek(), e.cycles(), s.cycles)));
            }
            let m = e.load_bytes(DATA, WIN as u64).unwrap();
            for k in 0..WIN {
                if m[k] != s.mem.rd8(DATA + k as u64) {
                    return Err(fail(format!("{:?}: data byte {} = {:#x} instead of {:#x}", e.ek(), k, m[k], s.mem.rd8(DATA + k as u64))));
                }
            }
            let l = b.opt.log.lock().unwrap().clone();
            if l != s.log {
                return Err(fail(format!("{:?}: system calls {:?} instead of {:?}", e.ek(), l, s.log)));
            }
        }
    }
    st.bump(if exceeded { "endless" } else if sr.is_ok() { "exited" } else { "trapped" }, 1);
    count(st, s, s0, nruns * b.engs.len() as u64);
    st.sample(|| format!("{} -> {:?}, {} steps, {} cycles", show(p, i), sr, s.steps - s0, s.cycles));
    Ok(())
}

/// Blocks whose addresses compete for the same slots of the trace tables and of the decoder cache,
/// visited in every order while everything decoded so far stays cached.
const SPOTS: &[u64] = &[0x2000, 0x2200, 0x2ffa, 0x3000 + 0xffe - 0x40, 0xa000, 0x2002, 0x1_2000, 0x2_2000, 0x4_2000];
struct Far {
    b: Bench,
    data: u64,
}
/// Block k: `n` distinct straight-line instructions, then a jump to the next address of a list.
fn far_block(k: u64, n: u64, style: u64) -> Vec<u8> {
    let mut c = Code::new();
    // a two-byte instruction first: SPOTS also enters one block just after it
    c.w(c_addi(5, k as i32 + 1) as u32);
    for j in 1..n {
        match (j + style) % 3 {
            0 => c.w(addi(5, 5, (k * 64 + j + 1) as i32)),
            1 => c.w(c_addi(5, (k + j) as i32 % 15 + 1) as u32),
            _ => c.w(add(5, 5, 5)),
        };
    }
    if style == 1 {
        // leave through a branch that is always taken, over an illegal instruction
        c.w(br(0, 0, 0, 6)).w(0x0000);
    }
    c.w(enc(Op::LW, 6, 8, 0, 0)).w(addi(8, 8, 4)).w(jalr(if style == 2 { 1 } else { 0 }, 6, 0));
    c.0
}
fn far_mk(g: &(u32, u8, u32, &'static [EK]), n: u64, style: u64) -> Far {
    let opt = Opt::new(g.1, g.2, MEM);
    let mut b = Bench::new(g.3, &opt, g.0);
    for (k, a) in SPOTS.iter().enumerate() {
        if *a != 0x2002 {
            b.put_code(*a, &far_block(k as u64, n, style));
        }
    }
    let mut c = Code::new();
    c.exit();
    b.put_code(0x1000, &c.0);
    Far { b, data: 0x6_0000 }
}
fn far_case(w: &mut Far, n: u64, len: u32, i: u64, st: &mut Stats) -> CaseRes {
    let k = SPOTS.len() as u64;
    let mut v = vec![];
    let mut r = i;
    for _ in 0..len {
        v.push(SPOTS[(r % k) as usize]);
        r /= k;
    }
    let start = v[0];
    let mut list = vec![];
    for a in v[1..].iter().chain([0x1000u64].iter()) {
        list.extend_from_slice(&(*a as u32).to_le_bytes());
    }
    let b = &mut w.b;
    let data = w.data;
    let mut x = bg(b.s.c.xlen);
    x[5] = 1;
    x[8] = data;
    x[10] = 3;
    let s = &mut b.s;
    let s0 = s.steps;
    s.x = x;
    s.pc = start;
    s.cycles = 0;
    s.mem.poke(data, &list);
    let sr = s.run(&|i| cost_of(i.op), false, 10_000).unwrap();
    if sr.is_err() {
        return Err(format!("harness: the model ended with {:?}", sr));
    }
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        for q in 1..32 {
            e.set_x(q, x[q]);
        }
        e.set_pc(start);
        e.set_cycles(0);
        e.store_bytes(data, &list).unwrap();
        let r = e.run();
        let fail = |m: String| format!("blocks of {} instructions visited in order {:x?}: {}", n, v, m);
        cmp_end(e, s, &r, &sr).map_err(fail)?;
        if e.cycles() != s.cycles {
            return Err(fail(format!("{:?}: {} cycles instead of {}", e.ek(), e.cycles(), s.cycles)));
        }
    }
    count(st, s, s0, b.engs.len() as u64);
    st.sample(|| format!("blocks of {} instructions visited in order {:x?}: {} steps, x5={:#x}", n, v, s.steps - s0, s.x[5]));
    Ok(())
}

/// Every combination of extension bits and version: what a configuration accepts does not depend
/// on the engine or on the way it is started.
fn conf_toks(xlen: u32) -> Vec<(&'static str, Vec<u32>)> {
    let mut v = vec![
        ("nothing", vec![]),
        ("add", vec![add(6, 5, 6)]),
        ("c.addi", vec![c_addi(5, -3) as u32]),
        ("mul", vec![enc(Op::MUL, 5, 6, 7, 0)]),
        ("andn", vec![enc(Op::ANDN, 5, 6, 7, 0)]),
        ("sh1add", vec![enc(Op::SH1ADD, 5, 6, 7, 0)]),
        ("clz", vec![enc(Op::CLZ, 5, 6, 0, 0)]),
        ("rori", vec![enc(Op::RORI, 5, 6, 0, 7)]),
        ("lr.w", vec![enc(Op::LR_W, 5, 8, 0, 0)]),
        ("amoadd.w", vec![enc(Op::AMOADD_W, 5, 8, 6, 0)]),
        ("lui+addi", vec![lui(5, 0x12345), addi(5, 5, 0x678)]),
        ("mulh+mul", vec![enc(Op::MULH, 5, 6, 7, 0), enc(Op::MUL, 28, 6, 7, 0)]),
        ("div+rem", vec![enc(Op::DIV, 5, 6, 7, 0), enc(Op::REM, 28, 6, 7, 0)]),
        ("auipc+jalr", vec![auipc(1, 0), jalr(1, 1, 8)]),
        ("jal", vec![jal(1, 4)]),
        ("illegal", vec![0xffff_ffff]),
        ("ebreak", vec![EBREAK]),
    ];
    if xlen == 64 {
        v.push(("amomax.d", vec![enc(Op::AMOMAX_D, 5, 8, 6, 0)]));
        v.push(("add.uw", vec![enc(Op::ADDUW, 5, 6, 7, 0)]));
    }
    v
}
fn conf_case(xlen: u32, eks: &[EK], i: u64, st: &mut Stats) -> CaseRes {
    let toks = conf_toks(xlen);
    let n = toks.len() as u64;
    let (isa, ver) = ((i / n / n % 8) as u8, (i / n / n / 8) as u32);
    let opt = Opt::new(isa, ver, MEM).logging();
    let mut b = Bench::new(eks, &opt, xlen);
    let mut c = Code::new();
    for t in [&toks[(i % n) as usize], &toks[(i / n % n) as usize]] {
        for w in &t.1 {
            c.w(*w);
        }
    }
    c.exit();
    b.put_code(CODE, &c.0);
    b.put_data(DATA, &PAT);
    let mut x = bg(xlen);
    x[8] = DATA;
    x[10] = 9;
    let s = &mut b.s;
    let s0 = s.steps;
    s.x = x;
    s.pc = CODE;
    let s_start = s.clone();
    let sr = s.run(&|i| cost_of(i.op), false, 10_000).unwrap();
    let mut fused: Option<u64> = None;
    let bad = isa & 2 != 0 && ver == 0;
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        if bad && e.ek() == EK::AsmStep {
            continue; // single steps do not choose a configuration
        }
        for way in 0..2 {
            for q in 1..32 {
                e.set_x(q, x[q]);
            }
            e.set_pc(CODE);
            e.set_cycles(0);
            e.store_bytes(DATA, &PAT).unwrap();
            let r = if way == 0 { e.run() } else { e.run_default() };
            let fail = |m: String| {
                format!("extensions {:#x}, version {}, xlen {}, program {} {} exit, started {}: {}", isa, ver, xlen, toks[(i % n) as usize].0, toks[(i / n % n) as usize].0, if way == 0 { "with a decoder" } else { "by run()" }, m)
            };
            if bad {
                if !is(&r, Kind::Version) {
                    return Err(fail(format!("{:?}: ended with {:?} instead of refusing the configuration", e.ek(), r)));
                }
                if e.pc() != CODE || e.x() != s_start.x || e.cycles() != 0 {
                    return Err(fail(format!("{:?}: refused the configuration after executing something", e.ek())));
                }
                continue;
            }
            if !cmp_end_block(e, s, &r, &sr).map_err(fail)? {
                continue;
            }
            // a fused pair has a cost of its own (C07), the same on every engine
            let want = if isa & 2 == 0 { s.cycles } else { *fused.get_or_insert(e.cycles()) };
            if sr.is_ok() && e.cycles() != want {
                return Err(fail(format!("{:?}: {} cycles instead of {}", e.ek(), e.cycles(), want)));
            }
        }
    }
    count(st, s, s0, 2 * b.engs.len() as u64);
    st.bump(if bad { "refused configuration" } else if sr.is_ok() { "exited" } else { "trapped" }, 1);
    st.sample(|| format!("extensions {:#x} version {}: {} {} -> {:?}", isa, ver, toks[(i % n) as usize].0, toks[(i / n % n) as usize].0, sr));
    Ok(())
}

/// Two memory accesses of any width at any distance from a page edge, a frame edge, the start or
/// the end of memory: the second sees what the first left, on every engine and memory.
const EDGES: &[u64] = &[0xb_1000, 0xc_0000, MEM as u64, 0];
fn edge_ops(xlen: u32) -> Vec<Op> {
    let mut v = vec![Op::LB, Op::LBU, Op::LH, Op::LHU, Op::LW, Op::SB, Op::SH, Op::SW];
    if xlen == 64 {
        v.extend_from_slice(&[Op::LWU, Op::LD, Op::SD]);
    }
    v
}
fn edge_case(b: &mut Bench, slot: &mut u64, xlen: u32, i: u64, st: &mut Stats) -> CaseRes {
    let ops = edge_ops(xlen);
    let n = ops.len() as u64 * 17;
    let edge = EDGES[(i / n / n) as usize];
    let pick = |k: u64| (ops[(k % ops.len() as u64) as usize], (k / ops.len() as u64) as i32 - 8);
    let acc = [pick(i % n), pick(i / n % n)];
    let mut c = Code::new();
    for (k, (op, off)) in acc.iter().enumerate() {
        let (rd, rs2) = (6 + k as u32, 28 + k as u32);
        c.w(match op {
            Op::SB | Op::SH | Op::SW | Op::SD => enc(*op, 0, 8, rs2, *off),
            _ => enc(*op, rd, 8, 0, *off),
        });
    }
    c.exit();
    let base = CODE + *slot * 64;
    *slot += 1;
    if *slot == 8000 {
        *slot = 0;
        for e in b.engs.iter_mut() {
            e.fresh_decoder();
        }
    }
    b.put_code(base, &c.0);
    let lo = edge.saturating_sub(32);
    let n = if edge == 0 || edge == MEM as u64 { 32 } else { WIN as u64 };
    let mut x = bg(xlen);
    x[8] = edge;
    x[10] = 1;
    let s = &mut b.s;
    let s0 = s.steps;
    s.x = x;
    s.pc = base;
    s.cycles = 0;
    s.mem.poke(lo, &PAT[..n as usize]);
    let sr = s.run(&|i| cost_of(i.op), false, 1000).unwrap();
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        for q in 1..32 {
            e.set_x(q, x[q]);
        }
        e.set_pc(base);
        e.set_cycles(0);
        e.store_bytes(lo, &PAT[..n as usize]).unwrap();
        let r = e.run();
        let fail = |m: String| format!("rv{} v{}: {:?} around {:#x}: {}", xlen, s.c.version, acc, edge, m);
        cmp_end_block(e, s, &r, &sr).map_err(fail)?;
        let m = e.load_bytes(lo, n).map_err(|x| fail(format!("{:?}: the host cannot read the window: {:?}", e.ek(), x)))?;
        for k in 0..n {
            if m[k as usize] != s.mem.rd8(lo + k) {
                return Err(fail(format!("{:?}: memory byte {:#x} = {:#x} instead of {:#x}", e.ek(), lo + k, m[k as usize], s.mem.rd8(lo + k))));
            }
        }
    }
    count(st, s, s0, b.engs.len() as u64);
    st.bump(if sr.is_ok() { "exited" } else { "trapped" }, 1);
    st.sample(|| format!("rv{}: {:?} around {:#x} -> {:?}", xlen, acc, edge, sr));
    Ok(())
}

/// The library's own entry points (`run`, `run_with_memory`, machines with default memory) give the
/// exit code or error of the model for a whole ELF file with arguments.
fn entry_case(xlen: u32, i: u64, st: &mut Stats) -> CaseRes {
    use ckb_vm::{run, run_with_memory, Bytes, FlatMemory, SparseMemory};
    let toks = conf_toks(xlen);
    let n = toks.len() as u64;
    let (a, b, na) = (&toks[(i % n) as usize], &toks[(i / n % n) as usize], i / n / n % 3);
    const DAT: u64 = 0x2_0000;
    let mut c = Code::new();
    // x5.. from the stack the arguments are on, and from the data segment
    let lw = |rd, rs, imm| enc(Op::LW, rd, rs, 0, imm);
    c.w(lui(8, (DAT >> 12) as u32)).w(lw(5, 2, 0)).w(lw(6, 8, 4)).w(lw(7, 8, 8)).w(add(28, 2, 0));
    for w in a.1.iter().chain(&b.1) {
        c.w(*w);
    }
    c.w(add(10, 5, 6)).w(add(10, 10, 7)).w(add(10, 10, 28)).w(lw(11, 8, 0)).w(add(10, 10, 11)).w(addi(17, 0, 93)).w(ECALL);
    let len = c.0.len() as u64;
    let mut f = crate::c10::File::new(if xlen == 32 { 1 } else { 2 }, vec![crate::c10::Ph { typ: 1, flags: 5, off: 0x200, vaddr: 0x1_0000, filesz: len, memsz: len }, crate::c10::Ph { typ: 1, flags: 6, off: 0x800, vaddr: DAT, filesz: 60, memsz: 64 }]);
    f.entry = 0x1_0000;
    let mut img = f.bytes();
    img[0x200..0x200 + len as usize].copy_from_slice(&c.0);
    let img = Bytes::from(img);
    let args: Vec<Bytes> = (0..na).map(|k| Bytes::from(vec![b'p' + k as u8; 5])).collect();
    let mut steps = 0;
    for size in [ckb_vm::DEFAULT_MEMORY_SIZE, MEM] {
        let mut s = Spec::new(Cfg { xlen, isa: 7, version: 2 }, size as u64);
        s.load_program(&img, &args).map_err(|e| format!("harness: {:?}", e))?;
        let want = s.run(&|_| 0, false, 1000).ok_or("harness: endless")?;
        steps += s.steps;
        let small = size == MEM;
        let mut got: Vec<(&str, Result<i8, ckb_vm::Error>)> = vec![];
        if xlen == 64 {
            if small {
                got.push(("run_with_memory u64 flat", run_with_memory::<u64, _>(&img, &args, FlatMemory::new_with_memory(MEM))));
                got.push(("run_with_memory u64 sparse", run_with_memory::<u64, _>(&img, &args, SparseMemory::new_with_memory(MEM))));
            } else {
                got.push(("run u64 flat", run::<u64, FlatMemory<u64>>(&img, &args)));
                got.push(("run u64 sparse", run::<u64, SparseMemory<u64>>(&img, &args)));
                let core = ckb_vm::machine::asm::AsmCoreMachine::new(7, 2, u64::MAX);
                let mut m = ckb_vm::machine::asm::AsmMachine::new(ckb_vm::DefaultMachineBuilder::new(core).build());
                got.push(("assembly machine", m.load_program(&img, &args).and_then(|_| m.run())));
                let core = ckb_vm::DefaultCoreMachine::<u64, ckb_vm::WXorXMemory<SparseMemory<u64>>>::new(7, 2, u64::MAX);
                let mut m = ckb_vm::DefaultMachineBuilder::new(core).build();
                got.push(("default machine", m.load_program(&img, &args).and_then(|_| m.run())));
                if m.cycles() != 0 {
                    return Err(format!("a machine without a cost model used {} cycles", m.cycles()));
                }
            }
        } else if small {
            got.push(("run_with_memory u32 flat", run_with_memory::<u32, _>(&img, &args, FlatMemory::new_with_memory(MEM))));
            got.push(("run_with_memory u32 sparse", run_with_memory::<u32, _>(&img, &args, SparseMemory::new_with_memory(MEM))));
        } else {
            got.push(("run u32 flat", run::<u32, FlatMemory<u32>>(&img, &args)));
            got.push(("run u32 sparse", run::<u32, SparseMemory<u32>>(&img, &args)));
        }
        for (name, r) in got {
            st.traces += 1;
            let ok = match (&r, &want) {
                (Ok(x), Ok(y)) => x == y,
                (Err(x), Err(t)) => t.0.contains(&kind(x)),
                _ => false,
            };
            if !ok {
                return Err(format!("xlen {} program {} {} with {} arguments: {} gave {:?} instead of {:?}", xlen, a.0, b.0, na, name, r, want));
            }
        }
        st.bump(if want.is_ok() { "exited" } else { "trapped" }, 1);
    }
    st.transitions += steps;
    st.states += steps + 2;
    Ok(())
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    let l64 = if q { 3 } else { 4 };
    let all_pads: Vec<u64> = vec![0, 11, 12, 13, 14, 15];
    let mut plans = vec![
        Plan { name: "rv64 v2 all".into(), xlen: 64, isa: 7, version: 2, eks: ALL64, len: l64, toks: tokens(64, true), pads: all_pads.clone(), offs: 0 },
        Plan { name: "rv64 v2 long".into(), xlen: 64, isa: 7, version: 2, eks: if q { ALL64 } else { REP64 }, len: l64 + 1, toks: tokens(64, true), pads: vec![0], offs: 0 },
        Plan { name: "rv64 v2 page ends".into(), xlen: 64, isa: 7, version: 2, eks: ALL64, len: 3, toks: tokens(64, true), pads: vec![7], offs: 4096 - 30 },
        Plan { name: "rv64 v1".into(), xlen: 64, isa: 3, version: 1, eks: ALL64, len: 3, toks: tokens(64, false), pads: vec![0, 14], offs: 0 },
        Plan { name: "rv64 v0".into(), xlen: 64, isa: 0, version: 0, eks: ALL64, len: 3, toks: tokens(64, false), pads: vec![0, 14], offs: 0 },
        Plan { name: "rv32 v2".into(), xlen: 32, isa: 4, version: 2, eks: ALL32, len: l64, toks: tokens(32, true), pads: vec![0, 14], offs: 0 },
        Plan { name: "rv32 v0".into(), xlen: 32, isa: 0, version: 0, eks: ALL32, len: 3, toks: tokens(32, false), pads: vec![0, 14], offs: 0 },
    ];
    if !q {
        // every program of length 5 for the fast representatives
        plans.push(Plan { name: "rv64 v2 page ends long".into(), xlen: 64, isa: 7, version: 2, eks: REP64, len: 4, toks: tokens(64, true), pads: vec![7], offs: 4096 - 30 });
    }
    r.bound(format!("all programs of length {} (representative engines: {}) over an alphabet of {} instructions, preceded by 0 or 11..15 straight-line instructions, each run cold and again with warm caches", l64, l64 + 1, tokens(64, true).len()));
    r.bound(format!("cycle budget {} bounds loops; a program that does not stop within it must be reported as exceeding the limit by every engine", BUDGET));
    for p in &plans {
        let n = (p.toks.len() as u64).pow(p.len) * p.pads.len() as u64;
        r.phase(&p.name, n, 2000, || mk(p), |w, i, st| case(w, p, i, st));
    }
    r.bound(format!("every visiting order of length {} over {} blocks whose addresses share trace-table and decoder-cache slots, for block lengths around the trace length, with all caches kept from the previous orders", r.pick(5, 6), SPOTS.len()));
    let len: u32 = r.pick(5, 6);
    let gs: &[(u32, u8, u32, &'static [EK])] = &[(64, 7, 2, ALL64), (64, 1, 1, ALL64), (32, 4, 2, ALL32)];
    for g in gs {
        for (n, style) in [(1u64, 0u64), (13, 0), (14, 1), (12, 2), (16, 1), (40, 0), (60, 2)] {
            r.phase(&format!("shared slots rv{} v{} blocks of {} style {}", g.0, g.2, n, style), (SPOTS.len() as u64).pow(len), 300, || far_mk(g, n, style), |w, i, st| far_case(w, n, len, i, st));
        }
    }
    r.bound("straight-line code of every length up to 72 (300 thorough) and some up to 1000, with each kind of event at its first, middle and last place, without limit and at limits around its quarters");
    for (xlen, isa, version) in [(64, 7, 2), (64, 1, 1), (64, 0, 0), (32, 4, 2)] {
        crate::c06::long(r, xlen, isa, version, &[crate::c06::Cost::One]);
    }
    for (xlen, isa, version) in [(64, 5, 2), (64, 1, 1), (64, 0, 0), (32, 4, 2), (64, 7, 2)] {
        crate::scale::blocks(r, xlen, isa, version, false);
        crate::scale::loops(r, xlen, isa, version);
        crate::scale::aliases(r, xlen, isa, version);
        crate::scale::overlaps(r, xlen, isa, version);
    }
    r.bound("every combination of the three extension bits and the three versions x every pair of instruction groups (one of each extension, fusible pairs, traps), on fresh machines, with an explicit decoder and with the default one");
    for (xlen, eks) in [(64, ALL64), (32, ALL32)] {
        let n = conf_toks(xlen).len() as u64;
        r.phase(&format!("configurations rv{}", xlen), n * n * 24, 200, || (), |_, i, st| conf_case(xlen, eks, i, st));
    }
    r.bound("every pair of loads/stores of every width at every offset -8..8 from a page edge, a frame edge, the end and the start of memory");
    for (xlen, isa, ver, eks) in [(64u32, 7u8, 2u32, ALL64), (64, 1, 1, ALL64), (64, 0, 0, ALL64), (32, 4, 2, ALL32)] {
        let n = edge_ops(xlen).len() as u64 * 17;
        r.phase(&format!("edges rv{} v{}", xlen, ver), n * n * EDGES.len() as u64, 1000, || (Bench::new(eks, &Opt::new(isa, ver, MEM), xlen), 0u64), |w, i, st| edge_case(&mut w.0, &mut w.1, xlen, i, st));
    }
    r.bound("the library's entry points on ELF files with 0 to 2 arguments for every pair of instruction groups");
    for xlen in [64u32, 32] {
        let n = conf_toks(xlen).len() as u64;
        r.phase(&format!("entry points rv{}", xlen), n * n * 3, 20, || (), |_, i, st| entry_case(xlen, i, st));
    }
}
