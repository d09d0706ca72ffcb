//! C15: nothing but the inputs decides what happens: heap contents, other machines, other threads and
//! the order in which memory is first touched do not.
use crate::asmb::*;
use crate::c10::{File, Ph};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::guard;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::Bytes;
use std::sync::{Arc, Condvar, Mutex};

const P: u64 = 4096;
const F: u64 = 1 << 18;
const M: u64 = 3 * F;
const PAT: [u8; 4] = [0xff, 0xa5, 0x01, 0x13];
const KS: &[EK] = &[EK::I64Flat, EK::I64Sparse, EK::T64Flat, EK::T64Sparse, EK::AsmSimple, EK::AsmFixed, EK::AsmDyn, EK::AsmStep, EK::AsmTiny, EK::I32Flat, EK::I32Sparse, EK::T32Flat, EK::T32Sparse];

/// Run with every block this thread allocates filled first.
fn poisoned<T>(p: Option<u8>, f: impl FnOnce() -> T) -> T {
    guard::fill(p);
    let r = f();
    guard::fill(None);
    r
}

// ------------------------------------------------------------------ first touches
#[derive(Clone, Copy, Debug)]
enum T {
    /// an instruction of the program, on an address
    G(Op, u64),
    /// jump to memory nobody wrote
    Fetch(u64),
    Ld(u64, u64),
    St(u64, u64),
    Bytes(u64, u64),
    Put(u64, u64),
    Fill(u64, u64),
    Init(u64, u64, u64),
    Ex(u64),
    Flag(u64),
}
fn touches(g: &crate::c01::Grp) -> Vec<T> {
    let mut v = vec![];
    let c = Cfg { xlen: g.xlen, isa: g.isa, version: g.version };
    for op in [Op::LB, Op::LH, Op::LW, Op::LD, Op::LWU, Op::SB, Op::SW, Op::SD, Op::LR_W, Op::SC_D, Op::AMOADD_W, Op::AMOMAXU_D] {
        if decode(enc(op, 5, 8, 6, 0), c).is_some() {
            for a in [0, F - 4, F, F + 0x808, 2 * F - 1] {
                v.push(T::G(op, a));
            }
        }
    }
    for a in [0, F - 2, F, 2 * F - 4] {
        v.push(T::Fetch(a));
    }
    for (n, a) in [(1, 3), (8, F - 4), (4, F + 0x10), (2, 2 * F - 2)] {
        v.push(T::Ld(n, a));
        v.push(T::St(n, a));
    }
    for (a, n) in [(0, 1), (F - 100, 200), (F + 5 * P, P), (P, F), (F - P, 2 * P), (F, F), (10, 2 * F - 20), (F + 8, F - 16)] {
        v.extend([T::Bytes(a, n), T::Put(a, n), T::Fill(a, n)]);
    }
    for (a, n, s) in [(F + 3 * P, P, 10), (F - P, 2 * P, P + 7), (0, 2 * P, 0), (F, F, 5), (F + P, F - P, 2 * F), (F, F - P, 100), (0, 2 * F, 9)] {
        v.push(T::Init(a, n, s));
    }
    v.extend([T::Ex(F - 2), T::Ex(F + 40), T::Flag(64), T::Flag(2)]);
    v
}
const CODE: u64 = 2 * F + P;
fn touch_case(g: &crate::c01::Grp, mem: u64, ts: &[T], pat: Option<u8>, reset: bool, st: &mut Stats) -> CaseRes {
    let mut o = Opt::new(g.isa, g.version, mem as usize).stop();
    o.max_cycles = 1000;
    let mut b = poisoned(pat, || Bench::new(g.eks, &o, g.xlen));
    let what = |m: String| format!("{} heap filled with {:x?}, {}touches {:x?}: {}", g.name, pat, if reset { "dirty memory reset, " } else { "" }, ts, m);
    for e in b.engs.iter_mut() {
        fresh_fields(e.as_mut()).map_err(what)?;
        if reset {
            e.store_byte(0, mem, 0xc3).unwrap();
            e.set_flag(3, EXEC).unwrap();
            e.set_lr(8);
            e.reset(1000).unwrap();
        }
    }
    let s0 = b.s.steps;
    for (k, t) in ts.iter().enumerate() {
        let what = |m: String| what(format!("step {}: {}", k, m));
        let run = |b: &mut Bench, pc: u64, x: [u64; 32]| -> CaseRes {
            b.s.x = x;
            b.s.pc = pc;
            let sr = b.s.run(&|_| 1, true, 4).unwrap();
            for e in b.engs.iter_mut() {
                let e = e.as_mut();
                for r in 1..32 {
                    e.set_x(r, x[r]);
                }
                e.set_pc(pc);
                e.set_cycles(0);
                let r = e.run();
                cmp_end_block(e, &b.s, &r, &sr)?;
            }
            Ok(())
        };
        let data = |n: u64| -> Vec<u8> { (0..n).map(|j| if j % 2 == 0 { 0x7f } else { (j as u8).wrapping_mul(29) ^ 0x40 ^ k as u8 }).collect() };
        match *t {
            T::G(op, a) => {
                let pc = CODE + 16 * k as u64;
                let mut c = Code::new();
                c.w(enc(op, 5, 8, 6, 0)).w(EBREAK);
                b.put_code(pc, &c.0);
                for e in b.engs.iter_mut() {
                    e.fresh_decoder();
                }
                let mut x = bg(g.xlen);
                x[8] = a;
                run(&mut b, pc, x).map_err(what)?;
            }
            T::Fetch(a) => {
                b.set_flag(a / P, EXEC);
                if a % P == P - 2 {
                    b.set_flag(a / P + 1, EXEC);
                }
                run(&mut b, a, bg(g.xlen)).map_err(what)?;
                b.clear_flag(a / P, EXEC);
                if a % P == P - 2 {
                    b.clear_flag(a / P + 1, EXEC);
                }
            }
            T::Ld(n, a) => {
                let want = b.s.m(b.s.mem.rd(a, n).unwrap());
                for e in b.engs.iter_mut() {
                    let r = e.ld(n, a);
                    if !matches!(r, Ok(v) if v == want) {
                        return Err(what(format!("{:?}: load returned {:x?} instead of {:#x}", e.ek(), r, want)));
                    }
                }
            }
            T::St(n, a) => {
                b.s.mem.wr(a, n, 0x4142_4344).unwrap();
                for e in b.engs.iter_mut() {
                    e.st(n, a, 0x4142_4344).map_err(|m| what(format!("{:?}: {:?}", e.ek(), m)))?;
                }
            }
            T::Bytes(a, n) => {
                for e in b.engs.iter_mut() {
                    let r = e.load_bytes(a, n).map_err(|m| what(format!("{:?}: {:?}", e.ek(), m)))?;
                    if let Some(j) = (0..n).find(|j| r[*j as usize] != b.s.mem.rd8(a + j)) {
                        return Err(what(format!("{:?}: byte {:#x} reads {:#x}", e.ek(), a + j, r[j as usize])));
                    }
                }
            }
            T::Put(a, n) => b.put_data(a, &data(n)),
            T::Fill(a, n) => {
                b.s.mem.wr_bytes(a, &vec![0x7f; n as usize]).unwrap();
                for e in b.engs.iter_mut() {
                    e.store_byte(a, n, 0x7f).map_err(|m| what(format!("{:?}: {:?}", e.ek(), m)))?;
                }
            }
            T::Init(a, n, l) => {
                // a source of l bytes placed 3 bytes into the range
                b.init_pages(a, n, 0);
                let d = data(l);
                let src = Bytes::from(d.clone());
                for e in b.engs.iter_mut() {
                    e.init_pages(a, n, 0, Some(src.clone()), 3).map_err(|m| what(format!("{:?}: {:?}", e.ek(), m)))?;
                }
                let k = l.min(n - 3);
                b.s.mem.poke(a + 3, &d[..k as usize]);
            }
            T::Ex(a) => {
                b.set_flag(a / P, EXEC);
                let want = b.s.mem.rd8(a) as u16 | (b.s.mem.rd8(a + 1) as u16) << 8;
                for e in b.engs.iter_mut() {
                    let r = e.ex16(a);
                    if !matches!(r, Ok(v) if v == want) {
                        return Err(what(format!("{:?}: fetch returned {:x?} instead of {:#x}", e.ek(), r, want)));
                    }
                }
                b.clear_flag(a / P, EXEC);
            }
            T::Flag(p) => {
                b.set_flag(p, 0x40);
            }
        }
    }
    let (s, engs) = (&b.s, &mut b.engs);
    for e in engs.iter_mut() {
        let e = e.as_mut();
        for p in 0..mem / P {
            let f = e.flag(p).unwrap();
            if f != s.mem.flags[p as usize] {
                return Err(what(format!("{:?}: flags of page {} are {:#x} instead of {:#x}", e.ek(), p, f, s.mem.flags[p as usize])));
            }
        }
        let d = e.load_bytes(0, mem).unwrap();
        for p in 0..mem / P {
            cmp_page(e.ek(), &s.mem, p, &d[(p * P) as usize..((p + 1) * P) as usize]).map_err(what)?;
        }
    }
    st.states += ts.len() as u64 + 1;
    st.transitions += b.s.steps - s0 + ts.len() as u64;
    st.traces += b.engs.len() as u64;
    Ok(())
}
/// What a machine looks like before anything happened.
fn fresh_fields(e: &mut dyn Eng) -> CaseRes {
    let ek = e.ek();
    let no = if ek.xlen() == 64 { u64::MAX } else { 0xffff_ffff };
    if e.x() != [0; 32] || e.pc() != 0 || e.cycles() != 0 || e.lr() != no || e.running() || e.exit_code() != 0 || e.max_cycles() != 1000 {
        return Err(format!("{:?}: a new machine has registers {:x?}, pc {:#x}, cycles {}, reservation {:#x}, running {}, exit code {}, limit {}", ek, e.x(), e.pc(), e.cycles(), e.lr(), e.running(), e.exit_code(), e.max_cycles()));
    }
    Ok(())
}

// ------------------------------------------------------------------ chaos mode
/// With the chaos mode of the assembly engine on, memory nobody wrote holds bytes that depend on the
/// seed and the order of first touches only, and everything written is as without it.
fn chaos_case(g: &crate::c01::Grp, mem_size: u64, ek: EK, ts: &[T], seed: u32, reset: bool, st: &mut Stats) -> CaseRes {
    let what = |m: String| format!("{} {:?} chaos seed {}{}, touches {:x?}: {}", g.name, ek, seed, if reset { " after a reset" } else { "" }, ts, m);
    let mut mem: Vec<Vec<u8>> = vec![];
    let mut xs: Vec<[u64; 32]> = vec![];
    let mut fl: Vec<Vec<u8>> = vec![];
    // None: not written by anybody
    let mut known: Vec<Option<u8>> = vec![None; mem_size as usize];
    for round in 0..2 {
        let mut o = Opt::new(g.isa, g.version, mem_size as usize).stop();
        o.max_cycles = 1000;
        o.chaos = Some(seed);
        let mut e = poisoned(Some(if round == 0 { 0xff } else { 0x13 }), || make(ek, &o));
        let e = e.as_mut();
        if reset {
            e.store_byte(0, mem_size, 0xc3).unwrap();
            e.reset(1000).unwrap();
        }
        known.fill(None);
        let put = |known: &mut Vec<Option<u8>>, e: &mut dyn Eng, a: u64, d: &[u8]| -> CaseRes {
            e.store_bytes(a, d).map_err(|m| format!("{:?}", m))?;
            for (j, v) in d.iter().enumerate() {
                known[a as usize + j] = Some(*v);
            }
            Ok(())
        };
        for (k, t) in ts.iter().enumerate() {
            let what = |m: String| what(format!("step {}: {}", k, m));
            match *t {
                T::G(op, a) => {
                    let pc = CODE + 16 * k as u64;
                    let mut c = Code::new();
                    c.w(enc(op, 5, 8, if matches!(op, Op::LR_W | Op::LR_D) { 0 } else { 6 }, 0)).w(EBREAK);
                    if e.flag(pc / P).unwrap() & EXEC != 0 {
                        e.clear_flag(pc / P, EXEC).unwrap();
                    }
                    put(&mut known, e, pc, &c.0).map_err(what)?;
                    e.set_flag(pc / P, EXEC).unwrap();
                    e.fresh_decoder();
                    let x = bg(64);
                    for r in 1..32 {
                        e.set_x(r, x[r]);
                    }
                    e.set_x(8, a);
                    e.set_pc(pc);
                    e.set_cycles(0);
                    let r = e.run();
                    if !matches!(r, Ok(0)) {
                        return Err(what(format!("ended with {:?}", r)));
                    }
                    let n = match op {
                        Op::SB => 1,
                        Op::SH => 2,
                        Op::SW => 4,
                        Op::SD => 8,
                        _ => 0,
                    };
                    for j in 0..n {
                        known[a as usize + j] = Some((x[6] >> (8 * j)) as u8);
                    }
                    let (w, sgn) = match op {
                        Op::LB => (1, true),
                        Op::LH => (2, true),
                        Op::LW => (4, true),
                        Op::LBU => (1, false),
                        Op::LHU => (2, false),
                        Op::LWU => (4, false),
                        Op::LD => (8, true),
                        _ => (0, false),
                    };
                    if w > 0 {
                        let v: Vec<Option<u8>> = known[a as usize..(a + w) as usize].to_vec();
                        if v.iter().all(|b| b.is_some()) {
                            let mut z = 0u64;
                            for (j, b) in v.iter().enumerate() {
                                z |= (b.unwrap() as u64) << (8 * j);
                            }
                            if sgn {
                                z = ((z << (64 - 8 * w)) as i64 >> (64 - 8 * w)) as u64;
                            }
                            if e.x()[5] != z {
                                return Err(what(format!("loaded {:#x} instead of {:#x}", e.x()[5], z)));
                            }
                        }
                    }
                    if w == 0 && n == 0 {
                        // an atomic combines with what was there
                        for b in &mut known[a as usize..(a as usize + 8).min(mem_size as usize)] {
                            *b = None;
                        }
                    }
                }
                T::Ld(n, a) => {
                    e.ld(n, a).map_err(|m| what(format!("{:?}", m)))?;
                }
                T::St(n, a) => {
                    e.st(n, a, 0x4142_4344).map_err(|m| what(format!("{:?}", m)))?;
                    for j in 0..n {
                        known[(a + j) as usize] = Some(if j < 4 { (0x4142_4344u32 >> (8 * j)) as u8 } else { 0 });
                    }
                }
                T::Bytes(a, n) => {
                    let r = e.load_bytes(a, n).map_err(|m| what(format!("{:?}", m)))?;
                    if let Some(j) = (0..n as usize).find(|j| matches!(known[a as usize + j], Some(b) if b != r[*j])) {
                        return Err(what(format!("byte {:#x} reads {:#x}", a as usize + j, r[j])));
                    }
                }
                T::Put(a, n) => {
                    let d: Vec<u8> = (0..n).map(|j| (j as u8).wrapping_mul(29) ^ 0x40 ^ k as u8).collect();
                    put(&mut known, e, a, &d).map_err(what)?;
                }
                T::Fill(a, n) => {
                    e.store_byte(a, n, 0x7f).map_err(|m| what(format!("{:?}", m)))?;
                    for j in 0..n {
                        known[(a + j) as usize] = Some(0x7f);
                    }
                }
                T::Init(a, n, l) => {
                    let d: Vec<u8> = (0..l).map(|j| (j as u8).wrapping_mul(13) ^ 0x55).collect();
                    e.init_pages(a, n, 0, Some(Bytes::from(d.clone())), 3).map_err(|m| what(format!("{:?}", m)))?;
                    for j in 0..n {
                        known[(a + j) as usize] = Some(if j >= 3 && j - 3 < l { d[j as usize - 3] } else { 0 });
                    }
                }
                T::Ex(a) => {
                    e.set_flag(a / P, EXEC).unwrap();
                    e.ex16(a).map_err(|m| what(format!("{:?}", m)))?;
                    e.clear_flag(a / P, EXEC).unwrap();
                }
                T::Fetch(_) | T::Flag(_) => {}
            }
        }
        let x = e.x();
        fl.push((0..mem_size / P).map(|p| e.flag(p).unwrap()).collect());
        let d = e.load_bytes(0, mem_size).unwrap().to_vec();
        if let Some(j) = (0..mem_size as usize).find(|j| matches!(known[*j], Some(b) if b != d[*j])) {
            return Err(what(format!("memory byte {:#x} is {:#x} instead of {:#x}", j, d[j], known[j].unwrap())));
        }
        mem.push(d);
        xs.push(x);
    }
    if let Some(j) = (0..mem_size as usize).find(|j| mem[0][*j] != mem[1][*j]) {
        return Err(what(format!("memory byte {:#x} is {:#x} in one run and {:#x} in the next", j, mem[0][j], mem[1][j])));
    }
    if xs[0] != xs[1] || fl[0] != fl[1] {
        return Err(what("registers or page flags differ between two runs".to_string()));
    }
    st.states += ts.len() as u64 + 1;
    st.transitions += 2 * ts.len() as u64;
    st.traces += 2;
    Ok(())
}
/// A program loaded in chaos mode: its segments, zero fill and arguments are all there.
fn chaos_load(ek: EK, prog: usize, seed: u32, nargs: usize, reset: bool, st: &mut Stats) -> CaseRes {
    let what = |m: String| format!("{:?} program {} with {} arguments loaded in chaos mode, seed {}: {}", ek, prog, nargs, seed, m);
    let args: Vec<Bytes> = (0..nargs).map(|k| Bytes::from(vec![b'a' + k as u8; 3 * k])).collect();
    let p = program(prog, ek.xlen());
    let mut o = Opt::new(ISA_A, 2, MM as usize);
    let mut plain = make(EK::I64Flat, &o);
    let want = plain.load_program(&p, &args).unwrap();
    o.chaos = Some(seed);
    let mut e = poisoned(Some(0xa5), || make(ek, &o));
    if reset {
        e.store_byte(0, MM, 0x77).unwrap();
        e.reset(u64::MAX).unwrap();
    }
    let got = e.load_program(&p, &args).map_err(|m| what(format!("{:?}", m)))?;
    if got != want || e.x() != plain.x() || e.pc() != plain.pc() {
        return Err(what("result, registers or pc differ from loading without chaos mode".into()));
    }
    // the pages of the segments in full, and the stack from the stack pointer up
    let mut spans = vec![];
    for pg in 0..MM / P {
        let f = plain.flag(pg).unwrap();
        if e.flag(pg).unwrap() != f {
            return Err(what(format!("flags of page {} are {:#x} instead of {:#x}", pg, e.flag(pg).unwrap(), f)));
        }
        if f != 0 && pg * P < MM - (1 << 16) {
            spans.push((pg * P, P));
        }
    }
    if nargs > 0 {
        let sp = plain.x()[2];
        spans.push((sp, (nargs as u64 + 2) * 8));
        for k in 0..nargs {
            spans.push((plain.ld(8, sp + 8 + 8 * k as u64).unwrap(), args[k].len() as u64 + 1));
        }
    }
    for (a, n) in spans {
        if e.load_bytes(a, n).unwrap() != plain.load_bytes(a, n).unwrap() {
            return Err(what(format!("memory {:#x}+{:#x} differs", a, n)));
        }
    }
    st.states += 1;
    st.transitions += 1;
    st.traces += 2;
    Ok(())
}

// ------------------------------------------------------------------ programs
const DATA: u64 = 0x3_f000;
/// Programs that read what they never wrote, loop, call out and run long straight lines.
fn program(kind: usize, xlen: u32) -> Bytes {
    let call = |c: &mut Vec<u32>| c.extend([addi(17, 0, 64), ECALL]);
    let mut c: Vec<u32> = vec![];
    let (ldw, stw) = if xlen == 64 { (3, 3) } else { (2, 2) };
    match kind {
        0 => {
            // sums a page and the stack, all of it untouched, then writes over it
            c.extend([lui(5, (DATA >> 12) as u32), addi(6, 0, 64)]);
            c.extend([it(3, ldw, 7, 5, 0), add(10, 10, 7), it(3, ldw, 7, 2, -64), add(10, 10, 7), st(stw, 5, 6, 0), addi(5, 5, 8), addi(6, 6, -1), br(1, 6, 0, -28)]);
            call(&mut c);
            c.extend([lui(5, ((DATA + 0x1000) >> 12) as u32), it(3, ldw, 7, 5, -8), add(10, 10, 7)]);
            call(&mut c);
        }
        1 => {
            // a long straight line, twice
            c.extend([addi(20, 0, 2)]);
            let n = 40;
            for k in 0..n {
                c.push(addi(5 + k % 7, 5 + (k + 1) % 7, k as i32 * 3 + 1));
            }
            c.extend([add(10, 10, 7), addi(20, 20, -1), br(1, 20, 0, -(4 * (n as i32 + 2)))]);
            call(&mut c);
            c.extend([enc(Op::MULH, 21, 10, 7, 0), enc(Op::MUL, 22, 10, 7, 0), add(10, 10, 21)]);
            call(&mut c);
        }
        _ => {
            // reservations and calls in a loop
            c.extend([lui(5, (DATA >> 12) as u32), addi(20, 0, 3)]);
            let top = c.len() as i32;
            c.extend([enc(Op::LR_W, 6, 5, 0, 0), addi(6, 6, 3), enc(Op::SC_W, 7, 5, 6, 0), add(10, 10, 7), enc(Op::AMOADD_W, 8, 5, 6, 0), add(10, 10, 8)]);
            call(&mut c);
            c.push(addi(20, 20, -1));
            let off = 4 * (top - c.len() as i32);
            c.push(br(1, 20, 0, off));
            c.extend([st(2, 2, 10, -4), it(3, 2, 9, 2, -8), add(10, 10, 9)]);
        }
    }
    c.extend([it(0x13, 7, 10, 10, 0x7f), addi(17, 0, 93), ECALL]);
    let mut code = vec![];
    for i in c {
        code.extend(i.to_le_bytes());
    }
    let n = code.len() as u64;
    let mut f = File::new(if xlen == 32 { 1 } else { 2 }, vec![Ph { typ: 1, flags: 5, off: 0x200, vaddr: 0x1_0000, filesz: n, memsz: n }, Ph { typ: 1, flags: 6, off: 0x800, vaddr: DATA + 0x800, filesz: 3, memsz: 0x10 }]);
    f.entry = 0x1_0000;
    let mut b = f.bytes();
    b[0x200..0x200 + n as usize].copy_from_slice(&code);
    b.into()
}
const ND: usize = 3;
/// Everything observable after a run: result, registers, pc, cycles, calls, digest of memory.
#[derive(Clone, PartialEq, Debug)]
struct Out {
    r: Result<i8, String>,
    x: [u64; 32],
    pc: u64,
    cycles: u64,
    calls: Vec<u64>,
    mem: u64,
}
fn digest(d: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for w in d.chunks_exact(8) {
        h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x1000_0000_01b3).rotate_left(29);
    }
    h
}
const MM: u64 = 2 * F;
fn opt(log: &Arc<Mutex<Vec<u64>>>, gate: Option<Arc<dyn Fn() + Send + Sync>>) -> Opt {
    let mut o = Opt::new(ISA_A | ISA_MOP, 2, MM as usize);
    o.cost = Some(Arc::new(|_| 1));
    o.max_cycles = 1000;
    let l = log.clone();
    o.hooks = vec![Hook {
        init: None,
        call: Arc::new(move |m| {
            if m.reg(17) != 64 {
                return Ok(false);
            }
            if let Some(g) = &gate {
                g();
            }
            l.lock().unwrap().push(m.reg(10));
            m.set_reg(10, m.reg(10).wrapping_add(1));
            Ok(true)
        }),
    }];
    o
}
fn out(e: &mut dyn Eng, r: Result<i8, ckb_vm::Error>, log: &Arc<Mutex<Vec<u64>>>) -> Out {
    Out { r: r.map_err(|x| format!("{:?}", x)), x: e.x(), pc: e.pc(), cycles: e.cycles(), calls: log.lock().unwrap().clone(), mem: digest(&e.load_bytes(0, MM).unwrap()) }
}
/// What the model says about the program.
fn expect(prog: usize, xlen: u32) -> Out {
    let log: Arc<Mutex<Vec<u64>>> = Default::default();
    let o = opt(&log, None);
    let mut s = Spec::new(Cfg { xlen, isa: o.isa, version: o.version }, MM);
    s.hooks = o.hooks.clone();
    s.max_cycles = u64::MAX;
    s.load_program(&program(prog, xlen), &[Bytes::from(&b"x"[..])]).unwrap();
    let r = s.run(&|_| 1, false, 2000).unwrap();
    let mut m = vec![0u8; MM as usize];
    for p in 0..MM / P {
        m[(p * P) as usize..((p + 1) * P) as usize].copy_from_slice(&s.mem.page(p));
    }
    let calls = log.lock().unwrap().clone();
    Out { r: r.map_err(|t| format!("{:?}", t)), x: s.x, pc: s.pc, cycles: s.cycles, calls, mem: digest(&m) }
}
fn same(a: &Out, b: &Out, fused: bool) -> Result<(), String> {
    let mut a = a.clone();
    if fused {
        // a fused pair is charged once
        a.cycles = b.cycles;
    }
    if a != *b {
        return Err(format!("outcome {:x?} instead of {:x?}", a, b));
    }
    Ok(())
}

/// One machine's life as a list of events.
struct Life {
    ek: EK,
    prog: usize,
    log: Arc<Mutex<Vec<u64>>>,
    e: Option<Box<dyn Eng>>,
    out: Option<Out>,
}
const STEPS: usize = 5;
impl Life {
    fn new(ek: EK, prog: usize) -> Life {
        Life { ek, prog, log: Default::default(), e: None, out: None }
    }
    /// create, load, run part of the way, run to the end, drop
    fn step(&mut self, k: usize, gate: Option<Arc<dyn Fn() + Send + Sync>>) -> Result<(), String> {
        match k {
            0 => {
                let o = opt(&self.log, gate);
                let mut e = make(self.ek, &o);
                fresh_fields(e.as_mut())?;
                self.e = Some(e);
            }
            1 => {
                let p = program(self.prog, self.ek.xlen());
                self.e.as_mut().unwrap().load_program(&p, &[Bytes::from(&b"x"[..])]).map_err(|m| format!("{:?}", m))?;
            }
            2 => {
                let e = self.e.as_mut().unwrap();
                e.set_max(30);
                let r = e.run();
                if !is(&r, Kind::Cycles) {
                    return Err(format!("{:?}: expected to stop at the limit, got {:?}", self.ek, r));
                }
                let c = e.cycles();
                e.set_max(1000);
                let _ = c;
            }
            3 => {
                let e = self.e.as_mut().unwrap();
                let r = e.run();
                self.out = Some(out(e.as_mut(), r, &self.log));
            }
            _ => self.e = None,
        }
        Ok(())
    }
}
/// The outcome of a life lived alone; the limit in the middle is part of the input.
fn alone(ek: EK, prog: usize, partial: bool) -> Result<Out, String> {
    let mut l = Life::new(ek, prog);
    for k in 0..STEPS {
        if k != 2 || partial {
            l.step(k, None)?;
        }
    }
    Ok(l.out.unwrap())
}
/// k-th interleaving of two sequences of n events: bit j set means the second one moves.
fn interleavings(n: usize) -> Vec<u32> {
    (0u32..1 << (2 * n)).filter(|m| m.count_ones() as usize == n).collect()
}

pub fn run(r: &mut Run) {
    guard::check(true);
    let q = r.quick();
    r.bound("768 KiB machines; heap fill patterns none/ff/a5/01/13; all pairs (thorough: reduced triples) of first touches by guest instructions, fetches and host operations at frame starts, ends and straddles, on new machines and after a reset of fully dirtied memory; the whole memory compared afterwards");
    r.bound("lives of two machines (create, load, partial run, run, drop): all 252 interleavings x engine pairs x program pairs; two threads with a controlled scheduler at every host call: all interleavings of 5 events each x engine pairs; snapshots after all orders of tracking");
    r.bound("testing (chaos) mode: all pairs of first touches under it, written bytes as without it, the rest reproduced by a second machine with the same seed; loading a program under it");
    r.assume("concurrency inside the straight-line execution between two host calls is not interleaved: machines share no memory the library writes");
    // ---- first touches
    for gi in [0usize, 1, 3] {
        let g = &crate::c01::GROUPS[gi];
        let ts = touches(g);
        let n = ts.len() as u64;
        let pats: Vec<Option<u8>> = if q && gi > 0 { vec![Some(0xff)] } else if q { vec![Some(0xff), Some(0xa5)] } else { vec![None, Some(0xff), Some(0xa5), Some(0x01), Some(0x13)] };
        let np = pats.len() as u64;
        r.phase(&format!("first touches {}", g.name), n * n * np, 16, || (), |_, i, st| {
            st.sample(|| format!("{} {:x?} then {:x?}", g.name, ts[(i % n) as usize], ts[(i / n % n) as usize]));
            touch_case(g, M, &[ts[(i % n) as usize], ts[(i / n % n) as usize]], pats[(i / n / n) as usize], false, st)
        });
        r.phase(&format!("first touches after reset {}", g.name), if q { n * 8 } else { n * n }, 16, || (), |_, i, st| {
            let second = if q { (i / n * 13 + 5) % n } else { i / n };
            touch_case(g, M, &[ts[(i % n) as usize], ts[second as usize]], None, true, st)
        });
        if !q {
            let small: Vec<T> = ts.iter().copied().filter(|t| !matches!(t, T::G(Op::LB | Op::LH | Op::LWU | Op::SB | Op::AMOMAXU_D, _))).collect();
            let n = small.len() as u64;
            r.phase(&format!("three touches {}", g.name), n * n * n, 64, || (), |_, i, st| {
                touch_case(g, M, &[small[(i % n) as usize], small[(i / n % n) as usize], small[(i / n / n) as usize]], Some(0xff), false, st)
            });
        }
    }
    // ---- every kind of access as the first touch of its frame, alone and after a neighbouring one
    for gi in [0usize, 1, 3] {
        let g = &crate::c01::GROUPS[gi];
        let ops = memops(Cfg { xlen: g.xlen, isa: g.isa, version: g.version });
        let no = ops.len() as u64;
        let at = [0, F - 4, F - 1, F, F + 0x808, 2 * F - 4, 2 * F - 1];
        let before = [None, Some(T::St(4, F + 0x900)), Some(T::Ld(1, F - 1)), Some(T::Put(F - 8, 4))];
        r.phase(&format!("every access as first touch {}", g.name), no * 7 * 4 * 2, 16, || (), |_, i, st| {
            let d = digits(i, &[no, 7, 4, 2]);
            let mut ts: Vec<T> = before[d[2]].into_iter().collect();
            ts.push(T::G(ops[d[0]], at[d[1]]));
            touch_case(g, M, &ts, if d[3] == 0 { Some(0xa5) } else { None }, d[3] == 1, st)
        });
    }
    // ---- every pair of frames of a memory of the default size
    r.bound("4 MiB: all ordered pairs of frames first touched by a load, a store, a fetch, or a bulk write reaching into the next frame");
    for gi in [0usize, 3] {
        let g = &crate::c01::GROUPS[gi];
        r.phase(&format!("frames of 4 MiB {}", g.name), 16 * 16 * 5, 4, || (), |_, i, st| {
            let d = digits(i, &[16, 16, 5]);
            let (a, b) = (d[0] as u64 * F, d[1] as u64 * F);
            let (ld, sd) = if g.xlen == 64 { (Op::LD, Op::SD) } else { (Op::LW, Op::SW) };
            let ts = match d[2] {
                0 => [T::G(sd, a + 0x808), T::G(ld, b + F - 16)],
                1 => [T::G(ld, a + 0x808), T::G(sd, b + F - 16)],
                2 => [T::Put((a + F).min(16 * F) - 8, if a == 15 * F { 8 } else { 16 }), T::G(ld, b + 0x10)],
                3 => [T::G(Op::SB, a + F - 1), T::Fetch(b + 40 * P)],
                _ => [T::Ld(4, a + 5 * P), T::Bytes(b + P, F - P)],
            };
            touch_case(g, 16 * F, &ts, if d[2] % 2 == 0 { Some(0xff) } else { Some(0x01) }, d[2] == 4, st)
        });
    }
    // ---- chaos mode
    r.bound("chaos mode of the assembly engines: all pairs of first touches x seeds, and all ordered pairs of frames of a 4 MiB memory with the rest of the frames after them in two orders, twice on different heaps, bytes anybody wrote compared with what was written; programs and arguments loaded in chaos mode");
    const ASM: &[EK] = &[EK::AsmSimple, EK::AsmDyn, EK::AsmStep];
    {
        let g = &crate::c01::GROUPS[0];
        let mut ts: Vec<T> = touches(g).into_iter().filter(|t| !matches!(t, T::Fetch(_) | T::Flag(_))).collect();
        ts.retain(|t| !q || !matches!(t, T::G(Op::LWU | Op::LH | Op::SC_D, _)));
        let n = ts.len() as u64;
        let na = if q { 1 } else { 3 };
        r.phase("chaos mode touches", n * n * na, 16, || (), |_, i, st| {
            let t = [ts[(i % n) as usize], ts[(i / n % n) as usize]];
            chaos_case(g, M, ASM[((i / n / n) as usize + (i % n) as usize) % 3], &t, (i % 5) as u32 * 0x3333_3333, i % 3 == 1, st)
        });
        // larger memories: every ordered pair of frames, alone and with every frame after them
        let nf = 16u64;
        let rx = if q { [nf, nf, 3, 1, 1] } else { [nf, nf, 3, 3, 2] };
        r.phase("chaos mode, every pair of frames of 4 MiB", rx.iter().product(), 4, || (), |_, i, st| {
            let d = digits(i, &rx);
            let (a, b) = (d[0] as u64 * F, d[1] as u64 * F);
            let mut ts = match d[2] {
                0 => vec![T::Ld(8, a + 0x10), T::St(4, b + F - 8)],
                1 => vec![T::G(Op::LD, a + 0x808), T::G(Op::SD, b + F - 16)],
                _ => vec![T::Put(b + 3 * P, 100), T::Bytes(a, F), T::Ld(1, b + F - 1)],
            };
            // the rest of the frames in ascending, descending order or none
            let order = if q { d[2] } else { d[3] };
            let seed = if q { d[0] % 2 } else { d[4] };
            match order {
                1 => ts.extend((0..nf).map(|k| T::Ld(8, k * F + 0x20))),
                2 => ts.extend((0..nf).rev().map(|k| T::Ld(2, k * F + P))),
                _ => {}
            }
            chaos_case(g, nf * F, ASM[(d[0] + d[1]) % 3], &ts, [0, 77][seed], seed == 1 && d[2] == 1, st)
        });
        r.phase("chaos mode loading", 3 * ND as u64 * 4 * 4 * 2, 4, || (), |_, i, st| {
            let d = digits(i, &[3, ND as u64, 4, 4, 2]);
            chaos_load(ASM[d[0]], d[1], d[2] as u32 * 0x5555_5555, d[3], d[4] == 1, st)
        });
    }
    // ---- whole programs on poisoned heaps, against the model
    let progs = 3 * ND as u64;
    r.phase("programs on filled heaps", KS.len() as u64 * progs * 5, 4, || (), |_, i, st| {
        let d = digits(i, &[KS.len() as u64, ND as u64, 3, 5]);
        let ek = KS[d[0]];
        let pat = if d[3] == 0 { None } else { Some(PAT[d[3] - 1]) };
        // which parts of the life happen on a filled heap
        let mut l = Life::new(ek, d[1]);
        for k in 0..STEPS {
            let on = match d[2] {
                0 => k == 0,
                1 => k != 0,
                _ => true,
            };
            if k == 2 {
                continue;
            }
            poisoned(if on { pat } else { None }, || l.step(k, None))?;
        }
        let o = l.out.take().unwrap();
        st.traces += 1;
        st.states += 1;
        st.transitions += o.cycles;
        let fused = d[1] == 1;
        same(&o, &expect(d[1], ek.xlen()), fused).map_err(|m| format!("{:?} program {} on a heap of {:x?} (mode {}): {}", ek, d[1], pat, d[2], m))
    });
    // ---- every single instruction pattern on poisoned heaps
    for g in crate::c01::GROUPS {
        let ops: Vec<Op> = crate::c01::ops_for(g);
        let n = ops.len() as u64;
        let npat = if q { 1 } else { 4 };
        r.phase(&format!("instructions on filled heaps {}", g.name), n * npat, 4, || (), |_, i, st| {
            let op = ops[(i % n) as usize];
            let pat = PAT[(i / n) as usize];
            let mut o = Opt::new(g.isa, g.version, MM as usize).stop();
            o.max_cycles = 1000;
            guard::fill(Some(pat));
            let mut b = Bench::new(g.eks, &o, g.xlen);
            let mut c = Code::new();
            let f = form(op).0;
            let imm = match f { Form::Br | Form::J => 8, _ => 0 };
            c.w(enc(op, 5, 8, 6, imm)).w(EBREAK).w(EBREAK).w(EBREAK);
            b.put_code(P, &c.0);
            for (x8, x6) in [(0x2_0000, 5), (P + 8, 0x1_0000_0001), (MM - 8, u64::MAX)] {
                let mut x = bg(g.xlen);
                x[8] = x8;
                x[6] = b.s.m(x6);
                b.s.x = x;
                b.s.pc = P;
                let sr = b.s.run(&|_| 1, true, 4).unwrap();
                for e in b.engs.iter_mut() {
                    let e = e.as_mut();
                    for r in 1..32 {
                        e.set_x(r, x[r]);
                    }
                    e.set_pc(P);
                    e.set_cycles(0);
                    let r = e.run();
                    cmp_end(e, &b.s, &r, &sr).map_err(|m| format!("{} {:?} on a heap of {:#x}: {}", g.name, op, pat, m))?;
                    st.traces += 1;
                }
                st.states += 1;
                st.transitions += 1;
            }
            guard::fill(None);
            Ok(())
        });
    }
    // ---- other machines in the same thread
    let il = interleavings(STEPS);
    let nk = KS.len() as u64;
    let pp: &[(usize, usize)] = if q { &[(0, 1)] } else { &[(0, 1), (1, 1), (2, 0), (0, 0), (1, 2)] };
    let n = il.len() as u64 * nk * nk * pp.len() as u64;
    // alone, on a thread of its own
    let base: Vec<Vec<Out>> = KS.iter().map(|k| (0..ND).map(|p| { let k = *k; std::thread::spawn(move || alone(k, p, true).expect("alone")).join().expect("alone") }).collect()).collect();
    let (b2, il2) = (&base, &il);
    r.phase("lives of two machines", n, 252, || (), |_, i, st| {
        let d = digits(i, &[il2.len() as u64, nk, nk, pp.len() as u64]);
        let (p, w) = (pp[d[3]], il2[d[0]]);
        let mut l = [Life::new(KS[d[1]], p.0), Life::new(KS[d[2]], p.1)];
        let mut at = [0; 2];
        let what = |m: String| format!("{:?} with program {} beside {:?} with program {}, interleaving {:#b}: {}", KS[d[1]], p.0, KS[d[2]], p.1, w, m);
        for j in 0..2 * STEPS {
            let k = (w >> j & 1) as usize;
            l[k].step(at[k], None).map_err(what)?;
            at[k] += 1;
        }
        for (k, prog) in [(0, p.0), (1, p.1)] {
            same(l[k].out.as_ref().unwrap(), &b2[d[1 + k]][prog], false).map_err(|m| what(format!("machine {}: {}", k, m)))?;
        }
        st.sample(|| what("same as alone".into()));
        st.states += 10;
        st.transitions += 10;
        st.traces += 2;
        Ok(())
    });
    // ---- another thread, scheduled at every host call
    let eks: &[EK] = if q { &[EK::I64Flat, EK::T64Sparse, EK::AsmSimple, EK::AsmFixed, EK::AsmDyn, EK::I32Sparse] } else { KS };
    let ne = eks.len() as u64;
    let ev = 5usize; // create, load, two calls, finish
    let il = interleavings(ev);
    let il2 = &il;
    let n = il.len() as u64 * ne * ne;
    r.phase("two threads", n, 64, || (), |_, i, st| {
        let d = digits(i, &[il2.len() as u64, ne, ne]);
        let w = il2[d[0]];
        let pair = [(eks[d[1]], 0usize), (eks[d[2]], 1usize)];
        let turn = Arc::new((Mutex::new(0usize), Condvar::new()));
        // a thread announces that it reached its next event and waits until the schedule reaches it
        let mut res: Vec<Result<Out, String>> = vec![];
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..2)
                .map(|t| {
                    let turn = turn.clone();
                    s.spawn(move || -> Result<Out, String> {
                        let mine = move |turn: &Arc<(Mutex<usize>, Condvar)>| {
                            let mut g = turn.0.lock().unwrap();
                            while *g < 2 * ev && (w >> *g & 1) as usize != t {
                                g = turn.1.wait(g).unwrap();
                            }
                        };
                        let pass = |turn: &Arc<(Mutex<usize>, Condvar)>| {
                            *turn.0.lock().unwrap() += 1;
                            turn.1.notify_all();
                        };
                        let mut l = Life::new(pair[t].0, pair[t].1);
                        let t2 = turn.clone();
                        let gate: Arc<dyn Fn() + Send + Sync> = Arc::new(move || {
                            pass(&t2);
                            mine(&t2);
                        });
                        let mut run = || -> Result<(), String> {
                            mine(&turn);
                            l.step(0, Some(gate.clone()))?;
                            pass(&turn);
                            mine(&turn);
                            l.step(1, None)?;
                            pass(&turn);
                            mine(&turn);
                            l.step(3, None)?;
                            Ok(())
                        };
                        let r = run();
                        // let the other one finish whatever happened here
                        {
                            let mut g = turn.0.lock().unwrap();
                            if r.is_err() {
                                *g = 2 * ev;
                            } else {
                                *g += 1;
                            }
                            turn.1.notify_all();
                        }
                        l.step(4, None)?;
                        r?;
                        Ok(l.out.take().unwrap())
                    })
                })
                .collect();
            for h in hs {
                res.push(h.join().unwrap_or_else(|_| Err("host panic in a thread".into())));
            }
        });
        for (k, r) in res.into_iter().enumerate() {
            let (ek, prog) = pair[k];
            let what = |m: String| format!("threads {:?}, schedule {:#b}: thread {}: {}", pair, w, k, m);
            let o = r.map_err(what)?;
            same(&o, &expect(prog, ek.xlen()), prog == 1).map_err(what)?;
        }
        st.states += 2 * ev as u64;
        st.transitions += 2 * ev as u64;
        st.traces += 2;
        Ok(())
    });
    // ---- snapshots do not depend on the order in which things happened to be recorded
    let perms: Vec<Vec<usize>> = {
        let mut v = vec![];
        for a in 0..5usize.pow(5) {
            let d: Vec<usize> = (0..5).map(|k| a / 5usize.pow(k) % 5).collect();
            let mut s = d.clone();
            s.sort();
            s.dedup();
            if s.len() == 5 {
                v.push(d);
            }
        }
        v
    };
    let np = perms.len() as u64;
    r.phase("snapshots", np * KS.len() as u64, 4, || (), |_, i, st| {
        let (perm, ek) = (&perms[(i % np) as usize], KS[(i / np) as usize]);
        let take = |order: &[usize], pat: Option<u8>| -> Result<(String, String), String> {
            poisoned(pat, || {
                let o = Opt::new(ISA_A | ISA_MOP, 2, MM as usize);
                let mut e = make(ek, &o);
                let ds = Ds { data: vec![Bytes::from((0..40960u32).map(|k| (k >> 3) as u8).collect::<Vec<u8>>())] };
                let mut c = Ctx2::new(ds);
                for &k in order {
                    let a = [0x1000, 0x3000, 0x4_0000, 0x2_2000, 0x8000][k];
                    match k {
                        0..=2 => {
                            c.track_wrap(e.as_mut(), a, k as u64)?;
                        }
                        3 => e.store_bytes(a + 5, &[1, 2, 3]).map_err(|x| format!("{:?}", x))?,
                        _ => e.st(4, a, 77).map_err(|x| format!("{:?}", x))?,
                    }
                }
                let s2 = e.snap2(&mut c).map_err(|x| format!("{:?}", x))?;
                let s1 = e.snap1().map_err(|x| format!("{:?}", x))?;
                Ok((format!("{:?}", s2), format!("{:?} {:?} {:x?} {} {} {}", s1.page_indices, s1.page_flags, s1.pages.iter().map(|p| digest(p)).collect::<Vec<_>>(), s1.pc, s1.version, s1.load_reservation_address)))
            })
        };
        let a = take(&[0, 1, 2, 3, 4], None)?;
        let b = take(perm, Some(0xff))?;
        st.states += 5;
        st.transitions += 5;
        st.traces += 2;
        if a != b {
            return Err(format!("{:?}: snapshots after the orders [0, 1, 2, 3, 4] and {:?} differ", ek, perm));
        }
        Ok(())
    });
    r.stats.bump("heap blocks verified at release", guard::CHECKED.load(std::sync::atomic::Ordering::Relaxed));
}
trait Track {
    fn track_wrap(&mut self, e: &mut dyn Eng, a: u64, k: u64) -> Result<(), String>;
}
impl Track for Ctx2 {
    fn track_wrap(&mut self, e: &mut dyn Eng, a: u64, k: u64) -> Result<(), String> {
        e.init_pages(a, 2 * P, 0, None, 0).map_err(|x| format!("{:?}", x))?;
        for p in 0..2 {
            e.clear_flag(a / P + p, DIRTY).map_err(|x| format!("{:?}", x))?;
        }
        e.c2_track(self, a, 2 * P, 0, k * 2 * P).map_err(|x| format!("{:?}", x))
    }
}
