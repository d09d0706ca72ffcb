//! C07: pause requests at every point of a run, followed by resumption.
use crate::asmb::*;
use crate::c03::{tokens, Tok};
use crate::c06::{differs, model, snapshot, Cost, DATA, H, HI, LO, MEM, PAT};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::decoder::{build_decoder, Decoder, InstDecoder};
use ckb_vm::machine::asm::traces::{decode_fixed_trace, MemoizedDynamicTraceDecoder, MemoizedFixedTraceDecoder, SimpleFixedTraceDecoder, TraceDecoder};
use ckb_vm::machine::asm::AsmCoreMachine;
use ckb_vm::machine::Pause;
use ckb_vm::{DefaultMachine, Error, Instruction, Memory, SupportMachine};
use ckb_vm::ckb_vm_definitions::asm::FixedTrace;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug)]
enum At {
    /// while this instruction (counted from 0) was being executed
    Inst(u64),
    /// when this many cycles were used, at a block entry
    Entry(u64),
    /// after a call, when this many cycles were used
    Call(u64),
    /// before running
    Idle,
}
/// Counts the points at which a request can arrive and issues it at the chosen ones.
pub struct Ctl {
    n: AtomicU64,
    t: [AtomicU64; 2],
    epoch: AtomicU64,
    on_cost: AtomicU64,
    /// what was known when the request was issued
    at: Mutex<Vec<At>>,
    pause: Pause,
}
impl Ctl {
    fn new() -> Arc<Ctl> {
        Arc::new(Ctl { n: AtomicU64::new(0), t: [AtomicU64::new(0), AtomicU64::new(0)], epoch: AtomicU64::new(0), on_cost: AtomicU64::new(0), at: Mutex::new(vec![]), pause: Pause::new() })
    }
    fn arm(&self, t1: u64, t2: u64, on_cost: bool) {
        self.n.store(0, Relaxed);
        self.t[0].store(t1, Relaxed);
        self.t[1].store(t2, Relaxed);
        self.epoch.fetch_add(1, Relaxed);
        self.on_cost.store(on_cost as u64, Relaxed);
        self.at.lock().unwrap().clear();
        self.pause.clone().free();
    }
    fn tick(&self, cycles: Option<u64>) {
        let n = self.n.fetch_add(1, Relaxed) + 1;
        if n == self.t[0].load(Relaxed) || n == self.t[1].load(Relaxed) {
            self.pause.interrupt();
            self.at.lock().unwrap().push(cycles.map_or(At::Inst(n - 1), At::Entry));
        }
    }
}
/// A trace decoder that knows a single trace, so that the engine asks for every block it enters.
struct One {
    d: Decoder,
    t: Box<FixedTrace>,
    ctl: Arc<Ctl>,
    epoch: u64,
}
impl InstDecoder for One {
    fn decode<M: Memory>(&mut self, m: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.d.decode(m, pc)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        self.d.reset_instructions_cache()
    }
}
impl TraceDecoder for One {
    fn fixed_traces(&self) -> *const FixedTrace {
        &*self.t
    }
    fn fixed_trace_size(&self) -> u64 {
        1
    }
    fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
        if self.epoch != self.ctl.epoch.load(Relaxed) {
            self.epoch = self.ctl.epoch.load(Relaxed);
        }
        self.ctl.tick(Some(m.cycles()));
        *self.t = decode_fixed_trace(&mut self.d, m, None)?.0;
        Ok(())
    }
    fn reset(&mut self) -> Result<(), Error> {
        *self.t = FixedTrace::default();
        self.d.reset_instructions_cache()
    }
}
/// Any trace decoder, with a request point whenever it is asked for a trace.
struct Inj<D> {
    d: D,
    ctl: Arc<Ctl>,
}
impl<D: TraceDecoder> InstDecoder for Inj<D> {
    fn decode<M: Memory>(&mut self, m: &mut M, pc: u64) -> Result<Instruction, Error> {
        self.d.decode(m, pc)
    }
    fn reset_instructions_cache(&mut self) -> Result<(), Error> {
        self.d.reset_instructions_cache()
    }
}
impl<D: TraceDecoder> TraceDecoder for Inj<D> {
    fn fixed_traces(&self) -> *const FixedTrace {
        self.d.fixed_traces()
    }
    fn fixed_trace_size(&self) -> u64 {
        self.d.fixed_trace_size()
    }
    fn prepare_traces(&mut self, m: &mut DefaultMachine<Box<AsmCoreMachine>>) -> Result<(), Error> {
        self.d.prepare_traces(m)?;
        self.ctl.tick(Some(m.cycles()));
        Ok(())
    }
    fn reset(&mut self) -> Result<(), Error> {
        self.d.reset()
    }
}

struct Plan {
    name: String,
    xlen: u32,
    isa: u8,
    version: u32,
    len: u32,
    toks: Vec<Tok>,
    pads: Vec<u64>,
    /// engines whose trace caches are emptied before every run as well
    cold: bool,
    /// longest run (in request points) for which every pair of points is tried
    pairs: u64,
}
struct W {
    a: Arena,
    ctl: Arc<Ctl>,
    cold: Vec<bool>,
}
fn mk(p: &Plan) -> W {
    let ctl = Ctl::new();
    let mut opt = Opt::new(p.isa, p.version, MEM);
    opt.ecall = EcallModel::Rich;
    opt.pause = Some(ctl.pause.clone());
    let c = ctl.clone();
    opt.cost = Some(Arc::new(move |i| {
        if c.on_cost.load(Relaxed) != 0 {
            c.tick(None);
        }
        cost_inst(i)
    }));
    let c = ctl.clone();
    let log = opt.log.clone();
    opt.hooks = vec![
        Hook {
            init: None,
            call: Arc::new(move |m| {
                if m.reg(17) != 73 {
                    return Ok(false);
                }
                let v = m.reg(10);
                m.set_reg(10, v.wrapping_add(2));
                c.pause.interrupt();
                c.at.lock().unwrap().push(At::Call(m.cycles()));
                Ok(true)
            }),
        },
        Hook { init: None, call: Arc::new(move |m| rich(m, &log)) },
    ];
    let eks: &[EK] = if p.xlen == 32 { ALL32 } else { &[EK::I64Flat, EK::I64Sparse, EK::T64Flat, EK::T64Sparse, EK::AsmStep] };
    let mut b = Bench::new(eks, &opt, p.xlen);
    let mut cold = vec![false; b.engs.len()];
    let (isa, v) = (p.isa, p.version);
    if p.xlen == 64 {
        let c = ctl.clone();
        b.engs.push(am(EK::AsmSimple, &opt, Box::new(move || One { d: build_decoder::<u64>(isa, v), t: Box::new(FixedTrace::default()), ctl: c.clone(), epoch: 0 })));
        cold.push(false);
        if p.cold {
            let c = ctl.clone();
            b.engs.push(am(EK::AsmSimple, &opt, Box::new(move || Inj { d: SimpleFixedTraceDecoder::new(build_decoder::<u64>(isa, v)), ctl: c.clone() })));
            let c = ctl.clone();
            b.engs.push(am(EK::AsmFixed, &opt, Box::new(move || Inj { d: MemoizedFixedTraceDecoder::new(build_decoder::<u64>(isa, v)), ctl: c.clone() })));
            let c = ctl.clone();
            b.engs.push(am(EK::AsmDyn, &opt, Box::new(move || Inj { d: MemoizedDynamicTraceDecoder::new(build_decoder::<u64>(isa, v)), ctl: c.clone() })));
            cold.extend([true; 3]);
        }
    }
    W { a: Arena::new(b, LO, HI), ctl, cold }
}

fn toks(xlen: u32, isa: u8) -> Vec<Tok> {
    let drop = ["add x6,x5,x6", "auipc x7,0", "lbu x6,9(x8)", "sub x7,x6,x5", "jalr x1,x1,0", "sw x7,8(x8)", "sd x6,16(x8)", "ld x5,8(x8)", "addiw x6,x5,-1", "lui x5,0x80001"];
    let mut v: Vec<Tok> = tokens(xlen, isa & 4 != 0).into_iter().filter(|t| !drop.contains(&t.0)).collect();
    v.push(Tok("addi x17,x0,73", addi(17, 0, 73)));
    v.push(Tok("addi x17,x0,72", addi(17, 0, 72)));
    v
}

/// Run with requests at points t1 and t2 (0: none); resume until the program ends.
/// Returns the number of request points met.
fn paused(e: &mut dyn Eng, w: &Ctl, init: &([u64; 32], u64), hist: &[H], end: &Option<(Result<i8, Trap>, H)>, s: &Spec, t1: u64, t2: u64, pre: bool, log: &Mutex<Vec<u64>>, st: &mut Stats) -> Result<u64, String> {
    let ek = e.ek();
    for k in 1..32 {
        e.set_x(k, init.0[k]);
    }
    e.set_pc(init.1);
    e.set_lr(u64::MAX);
    e.set_cycles(0);
    e.set_max(s.max_cycles);
    e.store_bytes(DATA, &PAT).unwrap();
    log.lock().unwrap().clear();
    let per_inst = !ek.is_asm();
    w.arm(t1, t2, per_inst || ek == EK::AsmStep);
    let mut last = 0usize;
    let mut pauses = 0;
    if pre {
        w.pause.interrupt();
        w.at.lock().unwrap().push(At::Idle);
    }
    let what = |m: String| format!("{:?} request at points {} {}: {}", ek, t1, t2, m);
    loop {
        let r = e.run();
        st.traces += 1;
        let at: Vec<At> = std::mem::take(&mut *w.at.lock().unwrap());
        let nl = log.lock().unwrap().len();
        if is(&r, Kind::Pause) {
            pauses += 1;
            if w.pause.has_interrupted() {
                return Err(what("the request is still set after the pause".into()));
            }
            if at.is_empty() {
                return Err(what("paused without a request".into()));
            }
            // which boundary is it?
            let c = e.cycles();
            let j = match hist.iter().position(|h| h.cycles == c) {
                Some(j) => j,
                None => return Err(what(format!("paused with {} cycles, which is no boundary", c))),
            };
            if let Some(d) = differs(e, &hist[j], nl) {
                return Err(what(format!("paused at boundary {} with {}", j, d)));
            }
            // not before the request, not later than the next place where requests are looked at
            let by = |c: u64| hist.iter().position(|h| h.cycles == c).unwrap_or(hist.len());
            let from = match at[0] {
                At::Inst(n) => n as usize,
                At::Entry(c) | At::Call(c) => by(c),
                At::Idle => 0,
            };
            let exact = matches!(at[0], At::Call(_) | At::Idle);
            let (lo, hi) = if ek.is_asm() {
                // the assembly engine looks after every jump and taken branch
                (from, (from..hist.len() - 1).find(|k| jumps(s, &hist[*k], &hist[*k + 1])).map_or(hist.len(), |k| k + 1))
            } else if exact {
                (from, from)
            } else if ek.is_trace() {
                (from + 1, (from + 1..hist.len()).find(|k| hist[*k].start).unwrap_or(hist.len()))
            } else {
                (from + 1, from + 1)
            };
            if j < lo.max(last) || j > hi {
                return Err(what(format!("{:?}: paused at boundary {} instead of {}..={}", at, j, lo.max(last), hi)));
            }
            last = j;
            if pauses > 300 {
                return Ok(w.n.load(Relaxed));
            }
            continue;
        }
        // ended
        match end {
            None => {
                if !matches!(&r, Err(x) if matches!(kind(x), Kind::Cycles)) && !(block_engine(ek) && r.is_err()) {
                    return Err(what(format!("endless program ended with {:?}", r)));
                }
            }
            Some((sr, h)) => {
                if sr.is_ok() {
                    cmp_end(e, s, &r, sr).map_err(what)?;
                    if let Some(d) = differs(e, h, nl) {
                        return Err(what(format!("finished with {}", d)));
                    }
                    if e.cycles() != h.cycles {
                        return Err(what(format!("finished with {} cycles instead of {}", e.cycles(), h.cycles)));
                    }
                } else {
                    cmp_end_block(e, s, &r, sr).map_err(what)?;
                }
            }
        }
        // a request that met the end of the program is honoured by the next run, once
        if !at.is_empty() {
            if !w.pause.has_interrupted() {
                return Err(what("the request was dropped when the program ended".into()));
            }
            if ek.is_asm() {
                w.pause.clone().free();
                return Ok(w.n.load(Relaxed));
            }
            let r = e.run();
            if !is(&r, Kind::Pause) || w.pause.has_interrupted() {
                return Err(what(format!("the request left over by the end of the program gave {:?}", r)));
            }
        } else if w.pause.has_interrupted() {
            return Err(what("a request appeared from nowhere".into()));
        }
        st.bump("pauses", pauses);
        return Ok(w.n.load(Relaxed));
    }
}
/// Does this instruction transfer control to another place than the next instruction?
fn jumps(s: &Spec, h: &H, next: &H) -> bool {
    let mut t = s.clone_shallow();
    t.pc = h.pc;
    matches!(t.fetch_decode(&s.mem), Ok(i) if i.op != Op::ECALL && next.pc != h.pc.wrapping_add(i.len as u64))
}

fn case(w: &mut W, p: &Plan, i: u64, st: &mut Stats) -> CaseRes {
    let np = p.pads.len() as u64;
    let pad = p.pads[(i % np) as usize];
    let d = digits(i / np, &vec![p.toks.len() as u64; p.len as usize]);
    let mut c = Code::new();
    for _ in 0..pad {
        c.w(addi(20, 20, 1));
    }
    for k in &d {
        c.w(p.toks[*k].1);
    }
    let exit_off = c.0.len() as u64;
    c.exit();
    let show = || format!("{} pad={} {:?}", p.name, pad, d.iter().map(|k| p.toks[*k].0).collect::<Vec<_>>());
    let pc = w.a.install(&[c.0])[0];
    let mut x = bg(p.xlen);
    x[1] = pc + exit_off;
    x[5] = 7;
    x[6] = 5;
    x[8] = DATA;
    x[9] = 2;
    x[10] = 9;
    x[11] = pc + exit_off;
    x[17] = 73;
    let b = &mut w.a.b;
    let s = &mut b.s;
    s.x = x;
    s.pc = pc;
    s.lr = s.m(u64::MAX);
    s.cycles = 0;
    s.max_cycles = u64::MAX;
    s.log.clear();
    s.mem.poke(DATA, &PAT);
    let s0 = s.steps;
    let mut hist = vec![];
    let end = match model(s, Cost::PerOp, &mut hist) {
        Some(r) => {
            let mut h = snapshot(s, true);
            h.log = s.log.len();
            if matches!(&r, Ok(_)) {
                hist.push(h.clone());
            }
            Some((r, h))
        }
        None => {
            // endless: cut it off by the cycle limit
            hist.truncate(60);
            s.max_cycles = hist[59].cycles - 1;
            None
        }
    };
    st.states += hist.len() as u64;
    st.transitions += s.steps - s0;
    let init = (x, pc);
    let log = b.opt.log.clone();
    let sm = &b.s;
    let (ctl, engs, cold) = (&w.ctl, &mut b.engs, &w.cold);
    let res = (|| -> CaseRes {
        for (k, e) in engs.iter_mut().enumerate() {
            let e = e.as_mut();
            let cold = cold[k];
            let mut go = |t1: u64, t2: u64, pre: bool, st: &mut Stats| -> Result<u64, String> {
                if cold {
                    e.fresh_decoder();
                }
                paused(e, ctl, &init, &hist, &end, sm, t1, t2, pre, &log, st).map_err(|m| format!("{}: {}", show(), m))
            };
            let n = go(0, 0, false, st)?.min(64);
            go(0, 0, true, st)?;
            for t in 1..=n {
                go(t, 0, t == 1, st)?;
            }
            st.bump("request points", n);
            if n <= p.pairs {
                for t1 in 1..=n {
                    for t2 in t1 + 1..=n {
                        go(t1, t2, false, st)?;
                    }
                }
            }
        }
        Ok(())
    })();
    st.sample(|| format!("{}: {} boundaries", show(), hist.len()));
    res
}

/// Sequences of operations on handles and machines, against one boolean per signal: handles are names
/// for signals, and each machine looks at the signal it was last given.
fn api(r: &mut Run) {
    const OPS: u64 = 9;
    let len = if r.quick() { 5 } else { 7 };
    r.phase(
        "sequences of handle operations and runs",
        ALL64.len() as u64 * OPS.pow(len),
        200,
        || {
            let mk = |ek: EK| {
                let opt = Opt::new(1, 2, MEM);
                let mut e = make(ek, &opt);
                let mut c = Code::new();
                c.w(addi(5, 5, 1)).w(br(0, 0, 0, 8)).w(EBREAK);
                c.exit();
                e.init_pages(0x1000, 0x1000, EXEC, Some(c.0.into()), 0).unwrap();
                e
            };
            let a: Vec<_> = ALL64.iter().map(|k| mk(*k)).collect();
            let b: Vec<_> = ALL64.iter().map(|k| mk(*k)).collect();
            (a, b)
        },
        |w, i, st| {
            let mut rx = vec![ALL64.len() as u64];
            rx.extend(vec![OPS; len as usize]);
            let d = digits(i, &rx);
            let (a, b) = (&mut w.0[d[0]], &mut w.1[d[0]]);
            a.set_pause(Pause::new());
            b.set_pause(Pause::new());
            // the signals, and which one each machine and each handle stands for
            let mut f = vec![false, false];
            let (mut ma, mb) = (0, 1);
            let (ha, hb) = (a.pause(), b.pause());
            let mut h2 = ha.clone();
            let mut n2 = 0;
            for (step, op) in d[1..].iter().enumerate() {
                let bad = |m: String| Err(format!("{:?} operations {:?}, step {}: {}", ALL64[d[0]], &d[1..], step, m));
                let mut run = |e: &mut Box<dyn Eng>, f: &mut bool| -> Result<(), String> {
                    e.set_pc(0x1000);
                    e.set_x(5, 0);
                    let r = e.run();
                    st.traces += 1;
                    if *f {
                        *f = false;
                        // the assembly engine may finish the block first
                        let at = (e.pc(), e.x()[5]);
                        if !is(&r, Kind::Pause) || !(at == (0x1000, 0) || e.ek().is_asm() && at == (0x100c, 1)) {
                            return Err(format!("requested pause gave {:?} at {:#x}", r, e.pc()));
                        }
                        let r = e.run();
                        if r.is_err() || e.x()[5] != 1 {
                            return Err(format!("resuming gave {:?}", r));
                        }
                    } else if r.is_err() || e.x()[5] != 1 {
                        return Err(format!("run without a request gave {:?}", r));
                    }
                    Ok(())
                };
                st.transitions += 1;
                match op {
                    0 => {
                        ha.interrupt();
                        f[0] = true;
                    }
                    1 => {
                        h2.interrupt();
                        f[n2] = true;
                    }
                    2 => {
                        a.pause().free();
                        f[ma] = false;
                    }
                    3 => {
                        hb.interrupt();
                        f[1] = true;
                    }
                    4 => {
                        if let Err(m) = run(a, &mut f[ma]) {
                            return bad(m);
                        }
                    }
                    5 => {
                        if let Err(m) = run(b, &mut f[mb]) {
                            return bad(m);
                        }
                    }
                    6 => {
                        h2.free();
                        f[n2] = false;
                        h2 = a.pause();
                        n2 = ma;
                    }
                    7 => {
                        // the two machines share a signal
                        a.set_pause(hb.clone());
                        ma = 1;
                    }
                    _ => {
                        // a fresh signal, with a request already on it
                        h2 = Pause::new();
                        h2.interrupt();
                        n2 = f.len();
                        ma = n2;
                        f.push(true);
                        a.set_pause(h2.clone());
                    }
                }
                let now = [ha.has_interrupted(), h2.has_interrupted(), a.pause().has_interrupted(), hb.has_interrupted(), b.pause().has_interrupted()];
                let exp = [f[0], f[n2], f[ma], f[1], f[mb]];
                if now != exp {
                    return bad(format!("signals {:?}, expected {:?}", now, exp));
                }
            }
            st.states += len as u64 + 1;
            Ok(())
        },
    );
}

/// Loops that never leave cached code must still see a request issued by another thread.
fn threads(r: &mut Run) {
    let loops: Vec<(&str, Vec<u32>)> = vec![
        ("j .", vec![jal(0, 0)]),
        ("beq .", vec![br(0, 0, 0, 0)]),
        ("addi; j -4", vec![addi(5, 5, 1), jal(0, -4)]),
        ("two blocks", vec![addi(5, 5, 1), br(0, 0, 0, 4), jal(0, -8)]),
        ("jalr", vec![jalr(0, 8, 0)]),
        ("30 instructions", {
            let mut v = vec![addi(5, 5, 1); 30];
            v.push(jal(0, -120));
            v
        }),
        ("not taken", vec![br(1, 0, 0, 8), addi(5, 5, 1), br(5, 0, 0, -8)]),
        ("lw; bne", vec![enc(Op::LW, 6, 8, 0, 0), br(1, 8, 0, -4)]),
    ];
    let all: Vec<EK> = ALL64.iter().chain(ALL32.iter()).copied().collect();
    let n = (loops.len() * all.len()) as u64;
    r.phase("endless cached loops, request from another thread", n, 1, || (), |_, i, st| {
        let ek = all[i as usize % all.len()];
        let (name, code) = &loops[i as usize / all.len()];
        let mut opt = Opt::new(1, 2, MEM);
        opt.cost = Some(Arc::new(|_| 1));
        let mut e = make(ek, &opt);
        let mut c = Code::new();
        c.ws(code);
        e.init_pages(0x1000, 0x1000, EXEC, Some(c.0.into()), 0).unwrap();
        for round in 0..2 {
            e.set_pc(0x1000);
            e.set_x(8, 0x1000);
            // far more work than fits in the delay; the limit only bounds a lost request
            e.set_cycles(0);
            e.set_max(if ek.is_asm() { 1 << 33 } else { 1 << 30 });
            let h = e.pause();
            let t = std::thread::spawn(move || {
                std::thread::sleep(std::time::Duration::from_millis(5));
                h.interrupt();
            });
            let r = e.run();
            t.join().unwrap();
            st.traces += 1;
            if !is(&r, Kind::Pause) || e.pause().has_interrupted() || e.pc() < 0x1000 || e.pc() >= 0x1000 + 4 * code.len() as u64 {
                return Err(format!("{:?} loop {} round {}: {:?} at {:#x}", ek, name, round, r, e.pc()));
            }
        }
        st.states += 2;
        st.transitions += 2;
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    api(r);
    threads(r);
    let mut plans = vec![];
    for (name, xlen, isa, version) in [("rv64 v2", 64, 5u8, 2u32), ("rv64 v1", 64, 1, 1), ("rv64 v0", 64, 0, 0), ("rv32 v2", 32, 4, 2)] {
        plans.push(Plan { name: format!("{} all decoders", name), xlen, isa, version, len: 2, toks: toks(xlen, isa), pads: if q { vec![0, 15, 33] } else { vec![0, 14, 15, 16, 33] }, cold: true, pairs: 24 });
        plans.push(Plan { name: name.to_string(), xlen, isa, version, len: 3, toks: toks(xlen, isa), pads: if q { vec![0] } else { vec![0, 13, 15, 16] }, cold: false, pairs: 40 });
    }
    if !q {
        plans.push(Plan { name: "rv64 v2 longer".into(), xlen: 64, isa: 5, version: 2, len: 4, toks: toks(64, 5), pads: vec![0], cold: false, pairs: 8 });
    }
    r.bound("programs of 2 and 3 instructions (thorough: up to 4) after 0 to 33 straight-line instructions; one request at every point and two at every pair of points of a run (every instruction for the interpreters, every block entry for the assembly engine, every call number 73 as well), and before running; handle operation sequences of length 5 (thorough: 7); endless loops with a request from a second thread");
    for p in &plans {
        let n = (p.toks.len() as u64).pow(p.len) * p.pads.len() as u64;
        r.phase(&p.name, n, 20, || mk(p), |w, i, st| case(w, p, i, st));
    }
}
