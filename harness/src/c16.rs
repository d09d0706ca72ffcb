//! C16: environment calls, breakpoints and exits.
use crate::asmb::*;
use crate::c10::{File, Ph};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::host;
use crate::spec::*;
use ckb_vm::error::OutOfBoundKind;
use ckb_vm::{Bytes, Error};
use std::sync::{Arc, Mutex};

const MEM: usize = 1 << 20;
const LO: u64 = 0x1_0000;
const HI: u64 = 0x9_0000;
const DATA: u64 = 0xa_0800;
const WIN: u64 = 32;
const NB: u64 = 12;
const ND: u64 = 6;
/// most handlers installed at once, and the debugger's number
const MAXH: usize = 24;
const DBG: usize = 99;

/// How the handlers in the slots and the debugger behave, and what they saw.
#[derive(Default)]
struct Cell {
    slots: [u64; MAXH],
    dbg: u64,
    log: Vec<[u64; 6]>,
    failed: Option<String>,
    init_fail: u64,
}
type Sh = Arc<Mutex<Cell>>;
fn fail(c: &mut Cell, e: Error) -> Result<bool, Error> {
    c.failed = Some(format!("{:?}", e));
    Err(e)
}
fn behave(c: &mut Cell, what: u64, m: &mut dyn SysM) -> Result<bool, Error> {
    let (n, a0, a1) = (m.reg(17), m.reg(10), m.reg(11));
    match what {
        1 => {
            if n == 100 {
                m.set_reg(10, a0.wrapping_add(1));
                return Ok(true);
            }
        }
        2 => {
            m.set_reg(5, a0 ^ 0x77);
            m.st(4, DATA + 4, n)?;
            let v = m.ld(1, DATA)?;
            m.set_reg(6, v);
            return Ok(true);
        }
        3 => return fail(c, Error::External("boom".into())),
        4 => {
            let v = m.reg(7);
            m.set_reg(7, v.wrapping_add(3));
            m.store_bytes(DATA, &[v as u8])?;
        }
        5 => {
            m.jump(a1);
            return Ok(true);
        }
        6 => {
            m.set_running(false);
            return Ok(true);
        }
        7 => {
            for k in 1..32 {
                if !matches!(k, 8 | 10 | 11 | 17 | 18) {
                    let v = m.reg(k);
                    m.set_reg(k, v.rotate_left(8) ^ k as u64);
                }
            }
            m.add_cycles_nc(5)?;
            return Ok(true);
        }
        8 => return fail(c, Error::MemOutOfBound(0x1234, OutOfBoundKind::ExternalData)),
        9 => {
            m.set_max(m.cycles() - 1);
            return Ok(true);
        }
        10 => m.set_reg(17, 93),
        11 => {
            if n != 100 {
                return Ok(true);
            }
            m.set_reg(17, 101);
        }
        _ => {}
    }
    Ok(false)
}
fn hook(sh: &Sh, k: usize) -> Hook {
    let (a, b) = (sh.clone(), sh.clone());
    Hook {
        init: Some(Arc::new(move |m| {
            let mut c = a.lock().unwrap();
            let v = m.ld(4, LO)?;
            c.log.push([100 + k as u64, v, 0, 0, 0, 0]);
            m.set_reg(9, v.wrapping_add(k as u64));
            if c.init_fail == k as u64 + 1 {
                return fail(&mut c, Error::External(format!("init {}", k)));
            }
            Ok(true)
        })),
        call: Arc::new(move |m| {
            let mut c = b.lock().unwrap();
            c.log.push([k as u64, m.reg(17), m.reg(10), m.reg(5), m.reg(7), m.cycles()]);
            if k == DBG {
                match c.dbg {
                    1 => m.set_running(false),
                    2 => return fail(&mut c, Error::Unexpected("stop here".into())),
                    3 => {
                        for k in [1, 5, 6, 7, 31] {
                            let v = m.reg(k);
                            m.set_reg(k, v.wrapping_add(0x101));
                        }
                        m.st(2, DATA + 8, 0x4142)?;
                    }
                    4 => m.jump(m.reg(11)),
                    5 => m.add_cycles(1)?,
                    _ => {}
                }
                return Ok(true);
            }
            let what = c.slots[k];
            behave(&mut c, what, m)
        }),
    }
}

struct W {
    a: Arena,
    sh: Sh,
    xlen: u32,
}
fn mk(xlen: u32, version: u32, hooks: usize, dbg: bool) -> W {
    let sh: Sh = Default::default();
    let mut o = Opt::new(if version == 2 { 7 } else { 5 }, version, MEM);
    o.cost = Some(Arc::new(|_| 1));
    o.hooks = (0..hooks).map(|k| hook(&sh, k)).collect();
    o.dbg = dbg.then(|| hook(&sh, DBG));
    let mut b = Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &o, xlen);
    b.s.hooks = o.hooks.clone();
    b.s.dbg = o.dbg.clone();
    W { a: Arena::new(b, LO, HI), sh, xlen }
}

struct Tok(&'static str, &'static [u32]);
fn toks() -> Vec<Tok> {
    const A100: u32 = 0x0640_0893; // addi x17, x0, 100
    const A101: u32 = 0x0650_0893;
    const A93: u32 = 0x05d0_0893;
    const MV18: u32 = 0x0009_0893; // addi x17, x18, 0
    vec![
        Tok("call 100", &[A100, ECALL]),
        Tok("call 101", &[A101, ECALL]),
        Tok("call", &[ECALL]),
        Tok("call x18", &[MV18, ECALL]),
        Tok("ebreak", &[EBREAK]),
        Tok("c.ebreak; c.addi x5,1", &[(C_EBREAK as u32) | 0x0285 << 16]),
        Tok("lw x6,4(x8); addi x7,x7,1", &[0x0044_2303, 0x0013_8393]),
        Tok("exit x7", &[0x0003_8513, A93, ECALL]),
    ]
}

/// Run the code at `pc` on every engine and in the model; again after every stop.
fn go(w: &mut W, pc: u64, x: &[u64; 32], max: u64, runs: usize, st: &mut Stats) -> CaseRes {
    let sh = w.sh.clone();
    let b = &mut w.a.b;
    let pat: Vec<u8> = (0..WIN).map(|k| k as u8 ^ 0x5c).collect();
    let s = &mut b.s;
    s.x = *x;
    s.pc = pc;
    s.lr = s.m(u64::MAX);
    s.cycles = 0;
    s.max_cycles = max;
    s.exit = 0;
    s.mem.poke(DATA, &pat);
    // what the model does, run by run
    struct Seen {
        s: [u64; 32],
        pc: u64,
        cycles: u64,
        data: Vec<u8>,
        r: Result<i8, Trap>,
        trap_rd: u8,
        failed: Option<String>,
        code: u64,
    }
    let mut seen = vec![];
    let reset = |sh: &Sh| {
        let mut c = sh.lock().unwrap();
        c.log.clear();
        c.failed = None;
    };
    reset(&sh);
    let s0 = s.steps;
    for _ in 0..runs {
        sh.lock().unwrap().failed = None;
        s.running = true;
        let mut r = None;
        let mut code = 0;
        for _ in 0..200 {
            code = if s.fetch_decode().map_or(true, |i| i.op == Op::EBREAK) { 0 } else { s.x[17] };
            match s.step(&|_| 1, false) {
                Ok(Step::Ok) => {}
                Ok(Step::Exit) => {
                    r = Some(Ok(s.exit));
                    break;
                }
                Err(t) => {
                    if s.hooks.is_empty() && t.0 == [Kind::Ecall] {
                        s.pc = s.m(s.pc.wrapping_add(4));
                    }
                    r = Some(Err(t));
                    break;
                }
            }
        }
        let r = match r {
            Some(r) => r,
            None => {
                // the program does not end
                st.bump("endless", 1);
                return Ok(());
            }
        };
        let stop = matches!(&r, Err(t) if !matches!(t.0[0], Kind::Ext | Kind::Ecall | Kind::Other | Kind::Oob)) || matches!(r, Ok(_)) && code == 93;
        let failed = sh.lock().unwrap().failed.clone();
        seen.push(Seen { s: s.x, pc: s.pc, cycles: s.cycles, data: (0..WIN).map(|k| s.mem.rd8(DATA + k)).collect(), r, trap_rd: s.trap_rd, failed, code });
        if stop {
            break;
        }
    }
    st.transitions += s.steps - s0;
    st.states += s.steps - s0 + 1;
    let log = std::mem::take(&mut sh.lock().unwrap().log);
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        for k in 1..32 {
            e.set_x(k, x[k]);
        }
        e.set_pc(pc);
        e.set_lr(u64::MAX);
        e.set_cycles(0);
        e.set_max(max);
        e.store_bytes(DATA, &pat).unwrap();
        reset(&sh);
        for (n, h) in seen.iter().enumerate() {
            sh.lock().unwrap().failed = None;
            let r = e.run();
            st.traces += 1;
            let bad = |m: String| Err(format!("{:?}, run {}: {}", ek, n, m));
            match (&r, &h.r) {
                (Ok(a), Ok(b)) => {
                    // stopping by other means than the exit call leaves the code of the last exit
                    if h.code == 93 && a != b {
                        return bad(format!("exit code {} instead of {}", a, b));
                    }
                    if e.pc() != h.pc {
                        return bad(format!("pc {:#x} instead of {:#x}", e.pc(), h.pc));
                    }
                }
                (Err(a), Err(t)) => {
                    if !t.0.contains(&kind(a)) {
                        return bad(format!("error {:?} instead of {:?}", a, t.0));
                    }
                    if let Some(f) = &h.failed {
                        if *f != format!("{:?}", a) {
                            return bad(format!("error {:?} instead of {}", a, f));
                        }
                    } else if t.0 == [Kind::Ecall] && *a != Error::InvalidEcall(h.code) {
                        return bad(format!("error {:?} instead of an unknown call {}", a, h.code));
                    }
                }
                (a, b) => return bad(format!("ended with {:?} instead of {:?}", a, b)),
            }
            let over = matches!(&h.r, Err(t) if matches!(t.0[0], Kind::Cycles));
            let ex = e.x();
            for k in 0..32 {
                if ex[k] != h.s[k] {
                    return bad(format!("x{} = {:#x} instead of {:#x}", k, ex[k], h.s[k]));
                }
            }
            if !over && e.cycles() != h.cycles {
                return bad(format!("{} cycles instead of {}", e.cycles(), h.cycles));
            }
            let d = e.load_bytes(DATA, WIN).unwrap();
            if d[..] != h.data[..] {
                return bad(format!("data {} instead of {}", hex(&d), hex(&h.data)));
            }
            if e.running() && h.r.is_ok() {
                return bad("still running".into());
            }
        }
        let c = sh.lock().unwrap();
        if c.log != log {
            return Err(format!("{:?}: the handlers saw {:?} instead of {:?}", ek, c.log, log));
        }
    }
    Ok(())
}

fn setup(xlen: u32, pc: u64, exit_off: u64) -> [u64; 32] {
    let mut x = bg(xlen);
    x[1] = pc + exit_off;
    x[5] = 7;
    x[7] = 0x181;
    x[8] = DATA;
    x[11] = pc + exit_off;
    x[17] = if xlen == 64 { 0x1_0000_0064 } else { 0x8000_0064 };
    x[18] = if xlen == 64 { 0x1_0000_005d } else { 0x8000_005d };
    x
}

fn programs(r: &mut Run, name: &str, xlen: u32, version: u32, hooks: usize, dbg: bool, len: u32, pads: &[u64], behs: &[u64], dbgs: u64, max: u64) {
    let t = toks();
    let nt = t.len() as u64;
    let np = nt.pow(len);
    let nb = (behs.len() as u64).pow(hooks as u32);
    let phase = format!("{}, {} bits, version {}, {} handlers{}", name, xlen, version, hooks, if dbg { ", debugger" } else { "" });
    // all behaviours for a program one after the other, so that code is installed once per program
    let n = np * pads.len() as u64 * nb * dbgs;
    let mut last: (u64, u64, u64) = (u64::MAX, 0, 0);
    let _ = &mut last;
    r.phase(
        &phase,
        n,
        nb * dbgs * (400 / (nb * dbgs) + 1),
        || (mk(xlen, version, hooks, dbg), (u64::MAX, 0u64, 0u64)),
        |(w, at), i, st| {
            let (prog, rest) = (i / (nb * dbgs), i % (nb * dbgs));
            let d = digits(prog / pads.len() as u64, &vec![nt; len as usize]);
            let pad = pads[(prog % pads.len() as u64) as usize];
            if at.0 != prog {
                let mut c = Code::new();
                for _ in 0..pad {
                    c.w(addi(20, 20, 1));
                }
                for k in &d {
                    for v in t[*k].1 {
                        c.w(*v);
                    }
                }
                let off = c.0.len() as u64;
                c.w(addi(10, 5, 0)).w(addi(17, 0, 93)).w(ECALL).w(jal(0, 0));
                *at = (prog, w.a.install(&[c.0])[0], off);
            }
            let q = digits(rest, &[behs.len() as u64, behs.len() as u64, behs.len() as u64, dbgs]);
            let (mut s, dv) = ([0; MAXH], rest / nb);
            for k in 0..hooks {
                s[k] = behs[q[k]];
            }
            {
                let mut c = w.sh.lock().unwrap();
                c.slots = s;
                c.dbg = dv;
            }
            let x = setup(xlen, at.1, at.2);
            st.sample(|| format!("{:?} handlers {:?} debugger {}", d.iter().map(|k| t[*k].0).collect::<Vec<_>>(), &s[..hooks], dv));
            go(w, at.1, &x, max, 4, st).map_err(|m| format!("{:?} after {} instructions, handlers {:?}, debugger {}: {}", d.iter().map(|k| t[*k].0).collect::<Vec<_>>(), pad, &s[..hooks], dv, m))
        },
    );
}

/// Exit codes and call numbers.
fn numbers(r: &mut Run, xlen: u32, version: u32) {
    let e: Vec<u64> = if xlen == 64 { edge64() } else { edge32() };
    let n0 = 65536;
    let nn = r.pick(8192, 65536);
    r.phase(&format!("exit codes, {} bits, version {}", xlen, version), n0 + e.len() as u64 * e.len() as u64, 2000, || mk(xlen, version, 1, false), |w, i, st| {
        if w.sh.lock().unwrap().log.is_empty() {
            let pc = w.a.install(&[ECALL.to_le_bytes().to_vec()])[0];
            w.sh.lock().unwrap().log.push([pc, 0, 0, 0, 0, 0]);
            w.sh.lock().unwrap().init_fail = pc;
        }
        let pc = w.sh.lock().unwrap().init_fail;
        let mut x = bg(xlen);
        let v = if i < n0 { i } else { e[((i - n0) % e.len() as u64) as usize].wrapping_add(e[((i - n0) / e.len() as u64) as usize]) };
        x[10] = if xlen == 32 { v & 0xffff_ffff } else { v };
        x[17] = 93;
        w.sh.lock().unwrap().slots[0] = 2;
        let r = go(w, pc, &x, 1000, 1, st).map_err(|m| format!("exit with a0 = {:#x}: {}", v, m));
        w.sh.lock().unwrap().log.push([0; 6]);
        r
    });
    r.phase(&format!("call numbers, {} bits, version {}", xlen, version), nn + e.len() as u64 * 3, 500, || mk(xlen, version, 2, false), |w, i, st| {
        if w.sh.lock().unwrap().init_fail == 0 {
            let mut c = Code::new();
            c.w(ECALL).w(addi(10, 5, 0)).w(addi(17, 0, 93)).w(ECALL).w(jal(0, 0));
            let pc = w.a.install(&[c.0])[0];
            w.sh.lock().unwrap().init_fail = pc;
        }
        let pc = w.sh.lock().unwrap().init_fail;
        let mut x = setup(xlen, pc, 4);
        x[17] = if i < nn { i } else { e[((i - nn) % e.len() as u64) as usize].wrapping_add([0, 93, 1u64.wrapping_neg()][((i - nn) / e.len() as u64) as usize]) };
        if xlen == 32 {
            x[17] &= 0xffff_ffff;
        }
        for b in 0..2 * NB {
            w.sh.lock().unwrap().slots[..3].copy_from_slice(&[if b % 2 == 0 { 0 } else { 4 }, b / 2, 0]);
            go(w, pc, &x, if b % 2 == 0 { 1000 } else { 9 }, 2, st).map_err(|m| format!("call {:#x}, handler {}: {}", x[17], b, m))?;
        }
        Ok(())
    });
}

/// Up to two dozen handlers, of which at most two do not decline; two calls in a row.
fn crowds(r: &mut Run, xlen: u32, version: u32) {
    r.phase(&format!("many handlers, {} bits, version {}", xlen, version), MAXH as u64 + 1, 1, || (), |_, n, st| {
        let n = n as usize;
        let mut w = mk(xlen, version, n, true);
        let mut code = vec![];
        for v in [ECALL, addi(11, 11, 1), ECALL, EBREAK, addi(17, 0, 93), ECALL] {
            code.extend(v.to_le_bytes());
        }
        let pc = w.a.install(&[code])[0];
        for k in 0..=n {
            for j in 0..=n {
                for (a, b) in [(1, 2), (7, 3), (4, 2), (11, 2)] {
                    if j != n && j <= k && (a, b) != (1, 2) {
                        continue;
                    }
                    let mut slots = [0; MAXH];
                    if k < n {
                        slots[k] = a;
                    }
                    if j < n {
                        slots[j] = b;
                    }
                    w.sh.lock().unwrap().slots = slots;
                    let mut x = bg(xlen);
                    x[17] = 100;
                    go(&mut w, pc, &x, 1000, 2, st).map_err(|m| format!("{} handlers, the {}th behaving as {}, the {}th as {}: {}", n, k, a, j, b, m))?;
                }
            }
        }
        Ok(())
    });
}

/// Loading initialises everything once, in order; a failure stops it.
fn inits(r: &mut Run, xlen: u32, version: u32) {
    r.phase(&format!("initialisation, {} bits, version {}", xlen, version), (MAXH as u64 + 1) * 2 * (MAXH as u64 + 3) * 2, 1, || (), |_, i, st| {
        let d = digits(i, &[MAXH as u64 + 1, 2, MAXH as u64 + 3, 2]);
        let (hooks, dbg, meta) = (d[0], d[1] == 1, d[3] == 1);
        // nobody fails, or the handler with that number, or the debugger
        let fails = if d[2] > MAXH { (DBG + d[2] - MAXH) as u64 } else { d[2] as u64 };
        if d[2] > hooks && d[2] <= MAXH {
            return Ok(());
        }
        let mut w = mk(xlen, version, hooks, dbg);
        w.sh.lock().unwrap().init_fail = fails;
        let mut f = File::new(if xlen == 32 { 1 } else { 2 }, vec![Ph { typ: 1, flags: 5, off: 0x200, vaddr: LO, filesz: 16, memsz: 16 }]);
        f.entry = LO;
        let mut img = f.bytes();
        for (k, v) in [addi(10, 9, 0), addi(17, 0, 93), ECALL].iter().enumerate() {
            img[0x200 + 4 * k..0x204 + 4 * k].copy_from_slice(&v.to_le_bytes());
        }
        let img: Bytes = img.into();
        let args = [Bytes::from_static(b"x")];
        let show = format!("{} handlers, debugger {}, failing {}, metadata {}", hooks, dbg, fails, meta);
        let s = &mut w.a.b.s;
        let want = s.load_program(&img, &args);
        let wr = want.as_ref().ok().map(|_| s.run(&|_| 1, false, 100).unwrap());
        let log = std::mem::take(&mut w.sh.lock().unwrap().log);
        for e in w.a.b.engs.iter_mut() {
            let e = e.as_mut();
            w.sh.lock().unwrap().log.clear();
            let r = if meta {
                let md = if xlen == 32 { ckb_vm::elf::parse_elf::<u32>(&img, version) } else { ckb_vm::elf::parse_elf::<u64>(&img, version) }.map_err(|e| format!("{:?}", e))?;
                e.load_meta(&img, &md, &args)
            } else {
                e.load_program(&img, &args)
            };
            if r != want {
                return Err(format!("{}: {:?}: loading gave {:?} instead of {:?}", show, e.ek(), r, want));
            }
            if let Some(wr) = &wr {
                for run in 0..2 {
                    if run == 1 {
                        e.set_pc(LO);
                    }
                    let r = e.run();
                    st.traces += 1;
                    cmp_end(e, s, &r, wr).map_err(|m| format!("{}: {}", show, m))?;
                }
            }
            let c = w.sh.lock().unwrap();
            if c.log != log {
                return Err(format!("{}: {:?}: initialised {:?} instead of {:?}", show, e.ek(), c.log, log));
            }
        }
        let _ = host::to_trap;
        st.states += hooks as u64 + 2;
        st.transitions += hooks as u64 + 1;
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    r.bound("up to 24 handlers installed at once, any two of them taking part");
    r.bound("every sequence of up to 4 (thorough: 5) calls, breakpoints and exits x every list of up to 3 handlers out of 12 behaviours (decline, accept, fail, change registers, memory, program counter, cycles, limit, stop) x 6 debugger behaviours, behind 0 to 33 instructions, run up to 4 times; all exit codes; call numbers up to 8192 (65536) and boundary values with every behaviour of the handler; every order and failure of initialisation; all engines, versions 0-2");
    r.assume("the exit code reported when a handler or debugger stops the machine is not compared; handlers change the program counter with update_pc and commit_pc, as the loader does");
    let all: Vec<u64> = (0..NB).collect();
    let most: Vec<u64> = vec![0, 1, 2, 3, 4, 5, 7, 10, 11];
    for (xlen, version) in [(64, 1), (64, 2), (32, 1), (64, 0), (32, 0)] {
        inits(r, xlen, version);
        crowds(r, xlen, version);
        numbers(r, xlen, version);
        programs(r, "programs", xlen, version, 0, false, 2, &[0, 15, 16], &all, 1, 1000);
        programs(r, "programs", xlen, version, 0, true, 4, &[0], &all, ND, 1000);
        programs(r, "programs", xlen, version, 2, true, 2, &[0], &most, ND, 1000);
        programs(r, "positions", xlen, version, 2, false, 2, &[1, 14, 15, 16, 17, 31, 33], &all, 1, 1000);
        programs(r, "programs", xlen, version, 1, true, if q { 3 } else { 5 }, &[0, 15], &all, ND, 1000);
        programs(r, "programs", xlen, version, 3, false, 3, &[0], &all, 1, 1000);
        programs(r, "programs", xlen, version, 2, true, 3, &[13], &all, ND, 1000);
        if !q {
            programs(r, "programs", xlen, version, 2, false, 5, &[0], &all, 1, 1000);
            programs(r, "programs", xlen, version, 3, true, 3, &[0, 16], &all, ND, 1000);
            programs(r, "programs", xlen, version, 3, false, 4, &[0], &all, 1, 1000);
        }
    }
}
