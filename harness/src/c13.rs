//! C13: machines that are reset and used again.
use crate::asmb::*;
use crate::c10::{File, Ph};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::machine::Pause;
use ckb_vm::Bytes;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

const MEM: u64 = 512 << 10;
const A: u64 = 0x1_0000;
/// shares trace slots and decoder cache entries with A
const B: u64 = 0x2_0000;
const DATA: u64 = 0x3_f000;
const KS: &[EK] = &[EK::I64Flat, EK::I64Sparse, EK::T64Flat, EK::T64Sparse, EK::AsmSimple, EK::AsmFixed, EK::AsmDyn, EK::AsmStep, EK::AsmTiny, EK::I32Flat, EK::I32Sparse, EK::T32Flat, EK::T32Sparse];
const KINDS: u64 = 9;
const ENDS: u64 = 9;
const EXEC_CALL: u64 = 8;

/// A program of the given kind and ending.
fn program(kind: usize, end: usize, xlen: u32) -> Bytes {
    let mut c: Vec<u32> = vec![];
    let w = |c: &mut Vec<u32>, v: &[u32]| c.extend_from_slice(v);
    // everything that may have leaked in through registers goes to x31
    let sum = |c: &mut Vec<u32>| {
        for r in 1..31 {
            if r != 2 {
                c.push(add(31, 31, r));
            }
        }
    };
    // what memory and the reservation still know
    let probe = |c: &mut Vec<u32>| {
        c.push(lui(5, (DATA >> 12) as u32));
        c.push(it(3, 2, 6, 5, 0x10));
        c.push(it(3, 2, 7, 5, -4));
        c.push(lui(8, ((DATA + 0x1000) >> 12) as u32));
        c.push(it(3, 2, 9, 8, 0x20));
        c.push(it(3, 2, 18, 2, -16));
        c.push(addi(5, 5, 0x10));
        c.push(enc(Op::SC_W, 19, 5, 6, 0));
    };
    let mut start = A;
    let mut others: Vec<Ph> = vec![];
    let mut pre: Vec<u8> = vec![];
    match kind {
        // fills registers, memory, the reservation and the caches
        0 => {
            sum(&mut c);
            for r in 5..31 {
                c.push(addi(r, 0, 0x111 + r as i32 * 3));
            }
            w(&mut c, &[lui(5, (DATA >> 12) as u32), st(2, 5, 6, 0x10), st(2, 5, 7, -4), lui(8, ((DATA + 0x1000) >> 12) as u32), st(2, 8, 9, 0x20), st(2, 2, 10, -16)]);
            // a loop that runs twice
            w(&mut c, &[addi(20, 0, 2), addi(20, 20, -1), br(1, 20, 0, -4)]);
            w(&mut c, &[addi(5, 5, 0x10), enc(Op::LR_W, 21, 5, 0, 0)]);
        }
        // same place, other code
        1 => {
            sum(&mut c);
            probe(&mut c);
            w(&mut c, &[addi(20, 0, 3), addi(20, 20, -1), br(1, 20, 0, -4)]);
        }
        // code at a colliding place, the old one holds data
        2 => {
            start = B;
            others.push(Ph { typ: 1, flags: 6, off: 0x800, vaddr: A, filesz: 0x40, memsz: 0x1200 });
            sum(&mut c);
            probe(&mut c);
            w(&mut c, &[lui(5, (A >> 12) as u32), st(3 - (xlen == 32) as u32, 5, 6, 8), it(3, 2, 7, 5, 16)]);
        }
        // a long straight line
        3 => {
            for k in 0..45 {
                c.push(addi(5 + k % 7, 5 + (k + 1) % 7, k as i32 * 3 + 1));
            }
            w(&mut c, &[enc(Op::MULH, 20, 5, 6, 0), enc(Op::MUL, 21, 5, 6, 0)]);
        }
        // code at address zero
        4 => {
            start = 0;
            sum(&mut c);
            probe(&mut c);
        }
        // instruction boundaries at other places
        5 => {
            pre = vec![];
            for h in [c_addi(5, 3), c_addi(6, 5), c_addi(7, 7)] {
                pre.extend(h.to_le_bytes());
            }
            sum(&mut c);
            probe(&mut c);
        }
        // jumps to where code used to be
        6 => {
            start = B + 0x1000;
            sum(&mut c);
            w(&mut c, &[lui(5, (A >> 12) as u32), jalr(1, 5, 0)]);
        }
        // an entry that cannot be fetched
        7 => {
            sum(&mut c);
        }
        // as 3, one instruction changed
        _ => {
            for k in 0..45 {
                c.push(addi(5 + k % 7, 5 + (k + 1) % 7, k as i32 * 3 + 1 + (k >= 20 && k % 5 == 0) as i32));
            }
            w(&mut c, &[enc(Op::MULHU, 20, 5, 6, 0), enc(Op::MUL, 21, 5, 6, 0)]);
        }
    }
    c.push(jal(0, 4));
    match end {
        0 => w(&mut c, &[addi(10, 0, 7 + kind as i32), addi(17, 0, 93), ECALL]),
        1 => w(&mut c, &[0xffff_ffff]),
        2 => w(&mut c, &[auipc(22, 0), st(2, 22, 23, 0)]),
        3 => w(&mut c, &[addi(17, 0, 71), ECALL]),
        4 => w(&mut c, &[EBREAK]),
        5 => w(&mut c, &[addi(17, 0, 67), ECALL]),
        6 => w(&mut c, &[jal(0, 0)]),
        7 => w(&mut c, &[addi(17, 0, 81), ECALL, jal(0, 0)]),
        _ => w(&mut c, &[addi(17, 0, 80), ECALL, addi(24, 0, 1), EBREAK]),
    }
    c.push(jal(0, 0));
    let mut code = pre;
    for i in c {
        code.extend(i.to_le_bytes());
    }
    let n = code.len() as u64;
    let mut ph = vec![Ph { typ: 1, flags: 5, off: 0x200, vaddr: start, filesz: n, memsz: n }];
    ph.extend(others);
    let mut f = File::new(if xlen == 32 { 1 } else { 2 }, ph);
    f.entry = if kind == 7 { 0x3_0000 } else { start };
    let mut b = f.bytes();
    b[0x200..0x200 + n as usize].copy_from_slice(&code);
    b.into()
}

/// What the call that replaces the program loads next.
#[derive(Clone)]
struct Next {
    prog: Bytes,
    args: Vec<Bytes>,
    max: u64,
}
struct W {
    engs: Vec<Box<dyn Eng>>,
    specs: [Spec; 2],
    next: Arc<Mutex<VecDeque<Next>>>,
    pause: Pause,
    progs: Vec<Bytes>,
    /// the decoder given by the caller is in use
    own: bool,
    mop: bool,
}
fn mk(version: u32, isa: u8) -> W {
    let next: Arc<Mutex<VecDeque<Next>>> = Default::default();
    let pause = Pause::new();
    let mut o = Opt::new(isa, version, MEM as usize);
    o.cost = Some(Arc::new(|_| 1));
    o.pause = Some(pause.clone());
    let (q, p) = (next.clone(), pause.clone());
    o.hooks = vec![Hook {
        init: None,
        call: Arc::new(move |m| {
            match m.reg(17) {
                67 => return Err(ckb_vm::Error::External("handler".into())),
                71 => m.set_running(false),
                80 => {
                    let n = q.lock().unwrap().pop_front().expect("next program");
                    m.reset(n.max)?;
                    m.load_elf(&n.prog)?;
                    m.init_stack(&n.args, MEM - MEM / 4, MEM / 4)?;
                }
                81 => p.interrupt(),
                _ => return Ok(false),
            }
            Ok(true)
        }),
    }];
    o.dbg = Some(Hook {
        init: None,
        call: Arc::new(|m| {
            m.set_running(false);
            Ok(true)
        }),
    });
    let spec = |xlen| {
        let mut s = Spec::new(Cfg { xlen, isa, version }, MEM);
        s.hooks = o.hooks.clone();
        s.dbg = o.dbg.clone();
        s
    };
    let mut progs = vec![];
    for xlen in [64, 32] {
        for k in 0..KINDS as usize {
            for e in 0..ENDS as usize {
                progs.push(program(k, e, xlen));
            }
        }
    }
    W { engs: KS.iter().filter(|k| version != 0 || isa & 2 == 0 || !k.is_asm()).map(|k| make(*k, &o)).collect(), specs: [spec(64), spec(32)], next, pause, progs, own: true, mop: isa & 2 != 0 }
}

/// One history: programs run one after the other, each after a reset from outside or from a call.
fn history(w: &mut W, h: &[(usize, usize)], own: bool, st: &mut Stats) -> CaseRes {
    let show = || h.iter().map(|(k, e)| format!("{}/{}", k, e)).collect::<Vec<_>>().join(", ");
    // the last program cannot be replaced
    if h.last().unwrap().1 as u64 == EXEC_CALL {
        return Ok(());
    }
    if own != w.own {
        w.own = own;
        for e in w.engs.iter_mut() {
            e.fresh_decoder();
        }
    }
    let step = |i: usize, xlen: u32, w: &[Bytes]| Next {
        prog: w[(xlen == 32) as usize * (KINDS * ENDS) as usize + h[i].0 * ENDS as usize + h[i].1].clone(),
        args: if (h[i].0 + i) % 2 == 0 { vec![] } else { vec![Bytes::from_static(b"a"), Bytes::from(vec![b'b'; 20])] },
        max: 600 + 100 * i as u64,
    };
    // (the segments of a run start where the host takes over)
    let mut at = 0;
    let mut results: [Vec<(Spec, Result<i8, Trap>)>; 2] = [vec![], vec![]];
    let mut cuts = vec![];
    while at < h.len() {
        let mut end = at;
        while h[end].1 as u64 == EXEC_CALL {
            end += 1;
        }
        cuts.push((at, end));
        at = end + 1;
    }
    for (xi, xlen) in [64u32, 32].into_iter().enumerate() {
        let s = &mut w.specs[xi];
        // a program may fail before it asks to be replaced; the host then starts the next one
        let mut i = 0;
        while i < h.len() {
            *w.next.lock().unwrap() = (i + 1..h.len()).map(|k| step(k, xlen, &w.progs)).collect();
            let n = step(i, xlen, &w.progs);
            SysM::reset(s, n.max).unwrap();
            s.load_program(&n.prog, &n.args).map_err(|e| format!("model: {:?}", e))?;
            s.running = true;
            let s0 = s.steps;
            let r = loop {
                match s.step(&|_| 1, false) {
                    Ok(Step::Ok) => {
                        if w.pause.has_interrupted() {
                            w.pause.free();
                            break Err(trap(Kind::Pause));
                        }
                    }
                    Ok(Step::Exit) => break Ok(s.exit),
                    Err(t) => break Err(t),
                }
            };
            st.transitions += s.steps - s0;
            st.states += s.steps - s0 + 1;
            let left = w.next.lock().unwrap().len();
            i = h.len() - left;
            results[xi].push((s.clone(), r));
        }
    }
    for e in w.engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        let xi = (ek.xlen() == 32) as usize;
        let mut i = 0;
        for (s, want) in &results[xi] {
            *w.next.lock().unwrap() = (i + 1..h.len()).map(|k| step(k, ek.xlen(), &w.progs)).collect();
            let n = step(i, ek.xlen(), &w.progs);
            let bad = |m: String| Err(format!("programs {} ({} decoder), from program {}: {}", show(), if own { "one" } else { "default" }, i, m));
            e.reset(n.max).unwrap();
            if let Err(x) = e.load_program(&n.prog, &n.args) {
                return bad(format!("{:?}: loading: {:?}", ek, x));
            }
            let r = if own { e.run() } else { e.run_default() };
            st.traces += 1;
            if w.pause.has_interrupted() {
                w.pause.free();
                return bad(format!("{:?}: the pause request is still there", ek));
            }
            if let Err(x) = cmp_end(e, s, &r, want) {
                return bad(x);
            }
            if !w.mop && e.cycles() != s.cycles && !matches!(want, Err(t) if matches!(t.0[0], Kind::Inval | Kind::Pause) || t.0.contains(&Kind::Perm)) {
                return bad(format!("{:?}: {} cycles instead of {}", ek, e.cycles(), s.cycles));
            }
            if e.max_cycles() != s.max_cycles {
                return bad(format!("{:?}: limit {} instead of {}", ek, e.max_cycles(), s.max_cycles));
            }
            if e.lr() != s.lr {
                return bad(format!("{:?}: reservation {:#x} instead of {:#x}", ek, e.lr(), s.lr));
            }
            if let Err(x) = cmp_mem(e, &s.mem, &all_pages(&s.mem), 0) {
                return bad(x);
            }
            i = h.len() - w.next.lock().unwrap().len();
        }
    }
    st.sample(|| show());
    st.bump("histories", 1);
    Ok(())
}

// ---- no loader between the reset and the next program: the host puts the code in place itself
struct Bare {
    b: Bench,
    words: Vec<(u32, u64)>,
    image: Vec<u8>,
}
const FR: u64 = 1 << 18;
fn bare(version: u32, isa: u8, xlen: u32) -> Bare {
    let o = Opt::new(isa, version, MEM as usize).stop();
    let ks: Vec<EK> = KS.iter().copied().filter(|k| k.xlen() == xlen && (version != 0 || isa & 2 == 0 || !k.is_asm())).collect();
    let mut c = Code::new();
    let mut words = vec![];
    for (op, a) in [(Op::LW, FR + 4), (Op::SW, FR + 4), (Op::SW, FR - 2), (Op::LW, FR - 2), (Op::AMOADD_W, FR + 8), (Op::LR_W, FR + 8), (Op::SC_W, FR + 8), (Op::SW, 0x2_0004), (Op::LW, 0x2_0004), (Op::SW, FR + PAGE), (Op::LB, A + 3), (Op::SB, B - 1)] {
        if let Op::SC_W | Op::LR_W | Op::AMOADD_W = op {
            if isa & 4 == 0 {
                continue;
            }
        }
        words.push((c.0.len() as u32, a));
        c.w(enc(op, 5, 8, 6, 0)).w(EBREAK);
    }
    Bare { b: Bench::new(&ks, &o, xlen), words, image: c.0 }
}
fn bare_case(w: &mut Bare, before: &[usize], how: usize, host: usize, after: &[usize], st: &mut Stats) -> CaseRes {
    let (s0, ne) = (w.b.s.steps, w.b.engs.len() as u64);
    let what = format!("accesses {:?}, {}, host step {}, accesses {:?}", before, ["reset", "memory reset"][how], host, after);
    let xlen = w.b.s.c.xlen;
    for round in 0..3 {
        // (the first reset makes the history independent of the case before it)
        let k = if round == 2 { how } else { 0 };
        for e in w.b.engs.iter_mut() {
            let x = if k == 0 { e.reset(1000 + round) } else { e.reset_memory() };
            x.map_err(|m| format!("{}: {:?}: {:?}", what, e.ek(), m))?;
        }
        let s = &mut w.b.s;
        if k == 0 {
            SysM::reset(s, 1000 + round).unwrap();
        } else {
            s.mem = SMem::new(MEM);
            s.lr = s.m(u64::MAX);
        }
        for e in w.b.engs.iter_mut() {
            if e.lr() != w.b.s.lr || e.x() != w.b.s.x || e.max_cycles() != w.b.s.max_cycles {
                return Err(format!("{}: {:?}: registers, reservation or limit left by the reset", what, e.ek()));
            }
        }
        if round == 0 {
            continue;
        }
        if round == 2 {
            match host {
                1 => w.b.put_data(FR + 2, &[9, 8, 7, 6, 5]),
                2 => w.b.set_flag(FR / PAGE, FREEZED),
                3 => w.b.set_flag((FR - 1) / PAGE, EXEC),
                4 => w.b.init_pages(FR, PAGE, 0),
                5 => w.b.put_data(0x2_0000, &[3; 16]),
                _ => {}
            }
        }
        let img = w.image.clone();
        // the code lands where different code was: one instruction further
        let base = A + if how == 0 { 8 * round } else { 8 };
        w.b.put_data(base, &img);
        w.b.set_flag(A / PAGE, EXEC);
        for &a in if round == 1 { before } else { after } {
            let (off, ad) = w.words[a % w.words.len()];
            let s = &mut w.b.s;
            let mut x = bg(xlen);
            x[8] = ad;
            x[6] = 0x5152_5350 + a as u64;
            s.x = x;
            s.pc = base + off as u64;
            let c0 = s.cycles;
            let sr = s.run(&|_| 1, true, 4).unwrap();
            for e in w.b.engs.iter_mut() {
                let e = e.as_mut();
                for r in 1..32 {
                    e.set_x(r, x[r]);
                }
                e.set_pc(base + off as u64);
                e.set_cycles(c0);
                let r = e.run();
                cmp_end(e, &w.b.s, &r, &sr).map_err(|m| format!("{}: {}", what, m))?;
                if e.lr() != w.b.s.lr {
                    return Err(format!("{}: {:?}: reservation {:#x} instead of {:#x}", what, e.ek(), e.lr(), w.b.s.lr));
                }
            }
            w.b.s.cycles = c0;
            for e in w.b.engs.iter_mut() {
                e.set_cycles(c0);
            }
        }
    }
    let pages = all_pages(&w.b.s.mem);
    let fails: u8 = DIRTY;
    let few: Vec<u64> = pages.iter().copied().filter(|p| p % 16 < 2 || p % 64 == 63).collect();
    for e in w.b.engs.iter_mut() {
        // (a refused store may leave the page it touched marked as written)
        cmp_mem(e.as_mut(), &w.b.s.mem, &few, fails).map_err(|m| format!("{}: {}", what, m))?;
        for p in 0..MEM / PAGE {
            let f = e.flag(p).unwrap();
            if w.b.s.mem.flags[p as usize] & !f & DIRTY != 0 {
                return Err(format!("{}: {:?}: page {} is not marked dirty", what, e.ek(), p));
            }
            if f & DIRTY != 0 && w.b.s.mem.flags[p as usize] & DIRTY == 0 && ![A / PAGE, B / PAGE - 1, FR / PAGE, FR / PAGE - 1, FR / PAGE + 1, 0x20].contains(&p) {
                return Err(format!("{}: {:?}: page {} is marked dirty", what, e.ek(), p));
            }
        }
    }
    count(st, &w.b.s, s0, 3 * ne);
    Ok(())
}
fn bares(r: &mut Run) {
    let q = r.quick();
    for (version, isa, xlen) in [(2, 7u8, 64u32), (1, 5, 64), (2, 5, 32), (0, 5, 64), (1, 4, 32)] {
        if q && version == 1 {
            continue;
        }
        let n = 12u64;
        let nb = if q { n } else { n * n };
        r.phase(&format!("host-placed code rv{} v{}", xlen, version), nb * 2 * 6 * n * n, 48, || bare(version, isa, xlen), |w, i, st| {
            let d = digits(i, &[n, n, 2, 6, n, if q { 1 } else { n }]);
            let before: Vec<usize> = if q { vec![d[4]] } else { vec![d[4], d[5]] };
            bare_case(w, &before, d[2], d[3], &[d[0], d[1]], st)
        });
    }
}

/// A call or breakpoint handler resets the machine and puts code in place itself, with or without
/// saying where to go on: a machine that was reset starts at zero.
fn in_call(r: &mut Run) {
    const N: u64 = 6;
    r.bound("resets inside a call or a breakpoint whose handler puts code at zero and where the old code was, and jumps there or not, before or after, after blocks of 0 to 20 instructions, twice in a row");
    for (version, isa, xlen) in [(2u32, 7u8, 64u32), (1, 5, 64), (0, 5, 64), (2, 5, 32)] {
        r.phase(
            &format!("resets inside calls rv{} v{}", xlen, version),
            21 * 2 * N * N,
            8,
            || {
                let how: Arc<Mutex<VecDeque<usize>>> = Default::default();
                let mut o = Opt::new(isa, version, MEM as usize);
                let h2 = how.clone();
                let mut old = Code::new();
                for _ in 0..64 {
                    old.w(addi(21, 21, 1)).w(addi(10, 0, 33)).w(addi(17, 0, 93)).w(ECALL);
                }
                let again = |brk: bool| {
                    let mut c = Code::new();
                    c.w(addi(20, 20, 5)).w(addi(17, 0, 70)).w(if brk { EBREAK } else { ECALL }).w(addi(20, 20, 7)).w(addi(10, 20, 0)).w(addi(17, 0, 93)).w(ECALL);
                    c.0
                };
                let (old, zero): (Bytes, [Bytes; 2]) = (old.0.into(), [again(false).into(), again(true).into()]);
                let f: HookFn = Arc::new(move |m| {
                    // (nothing left to do: go on after the call)
                    let k = match h2.lock().unwrap().pop_front() {
                        Some(k) => k,
                        None => return Ok(true),
                    };
                    if k == 3 {
                        m.jump(B);
                    }
                    m.reset(5000 + k as u64)?;
                    if k == 4 {
                        m.jump(A + 16);
                    }
                    if k == 5 {
                        return Ok(true);
                    }
                    m.init_pages(0, PAGE, EXEC, Some(zero[k % 2].clone()), 0)?;
                    m.init_pages(A, PAGE, EXEC, Some(old.clone()), 0)?;
                    if k == 2 {
                        m.jump(8);
                    }
                    Ok(true)
                });
                o.hooks = vec![Hook { init: None, call: f.clone() }];
                o.dbg = Some(Hook { init: None, call: f });
                o.cost = Some(Arc::new(|_| 1));
                let ks: Vec<EK> = KS.iter().copied().filter(|k| k.xlen() == xlen).collect();
                let mut b = Bench::new(&ks, &o, xlen);
                b.s.hooks = o.hooks.clone();
                b.s.dbg = o.dbg.clone();
                (b, how)
            },
            |(b, how), i, st| {
                let d = digits(i, &[21, 2, N, N]);
                let (pre, brk, hs) = (d[0], d[1] == 1, [d[2], d[3]]);
                let mut c = Code::new();
                for k in 0..pre {
                    c.w(addi(20, 20, k as i32));
                }
                c.w(addi(17, 0, 70)).w(if brk { EBREAK } else { ECALL });
                for _ in 0..30 {
                    c.w(addi(22, 22, 3));
                }
                c.exit();
                let what = format!("{} instructions, a {}, then resets of kind {:?}", pre, if brk { "breakpoint" } else { "call" }, hs);
                let s0 = b.s.steps;
                for e in b.engs.iter_mut() {
                    e.reset(u64::MAX).map_err(|m| format!("{}: {:?}", what, m))?;
                }
                SysM::reset(&mut b.s, u64::MAX).unwrap();
                b.init_pages(A, PAGE, EXEC);
                let image: Bytes = c.0.into();
                for e in b.engs.iter_mut() {
                    e.reset(u64::MAX).map_err(|m| format!("{}: {:?}", what, m))?;
                    e.init_pages(A, PAGE, EXEC, Some(image.clone()), 0).map_err(|m| format!("{}: {:?}", what, m))?;
                    e.set_pc(A);
                }
                let s = &mut b.s;
                SysM::reset(s, u64::MAX).unwrap();
                SysM::init_pages(s, A, PAGE, EXEC, Some(image), 0).unwrap();
                s.pc = A;
                *how.lock().unwrap() = hs.into();
                let sr = s.run(&|_| 1, false, 500).unwrap();
                for e in b.engs.iter_mut() {
                    let e = e.as_mut();
                    *how.lock().unwrap() = hs.into();
                    let r = e.run();
                    cmp_end(e, &b.s, &r, &sr).map_err(|m| format!("{}: {}", what, m))?;
                    if e.max_cycles() != b.s.max_cycles || sr.is_ok() && e.cycles() != b.s.cycles && isa & 2 == 0 {
                        return Err(format!("{}: {:?}: {} cycles of {} instead of {} of {}", what, e.ek(), e.cycles(), e.max_cycles(), b.s.cycles, b.s.max_cycles));
                    }
                }
                let ne = b.engs.len() as u64;
                count(st, &b.s, s0, ne);
                Ok(())
            },
        );
    }
}
pub fn run(r: &mut Run) {
    let q = r.quick();
    bares(r);
    in_call(r);
    for (xlen, isa, version) in [(64, 7, 2), (64, 1, 1), (32, 4, 2), (64, 0, 0), (64, 5, 2)] {
        if q && isa % 4 == 0 && version == 0 || q && isa == 5 {
            continue;
        }
        crate::scale::blocks(r, xlen, isa, version, true);
    }
    r.bound("every history of 2 (thorough: 3) programs out of 9 kinds (same place with other code, colliding trace slots and decoder entries, long straight lines, other instruction boundaries, code at address zero, jumps to vanished code, unfetchable entries) x 9 endings (exit, errors, stop from call and debugger, limit, pause, replacement from a call), one machine of each of 12 engines used for all histories of a chunk, versions 0-2, with a decoder kept by the caller and with the default one; every 1 (thorough: 2) accesses out of 12 before and 2 after a reset of the machine or of its memory, with 6 host steps between, the code put in place by the host without the loader");
    for (version, isa) in [(1, 5u8), (2, 7), (0, 5)] {
        for own in [true, false] {
            let n = KINDS * ENDS;
            let d = if !q && version != 0 { 3 } else { 2 };
            if q && version == 0 && !own {
                continue;
            }
            r.phase(&format!("histories of {}, version {}, {} decoder", d, version, if own { "one" } else { "default" }), n.pow(d), 30, || mk(version, isa), |w, i, st| {
                let h: Vec<(usize, usize)> = digits(i, &vec![n; d as usize]).iter().map(|k| (k / ENDS as usize, k % ENDS as usize)).collect();
                history(w, &h, own, st)
            });
        }
    }
}
