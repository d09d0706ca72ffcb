//! Shared by C08 and C09: programs stopped at every boundary, saved, restored elsewhere and continued.
use crate::asmb::*;
use crate::c03::Tok;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::Bytes;

pub const MEM: usize = 512 << 10;
pub const CODE: u64 = 0x4000;
pub const D0: u64 = 0x8000;
pub const D2: u64 = 0x5_0000;
const FUEL: usize = 60;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ver {
    V1,
    V2,
}
pub enum Saved {
    A(ckb_vm::snapshot::Snapshot),
    B(Snap2),
}
pub struct Plan {
    pub name: String,
    pub ver: Ver,
    pub xlen: u32,
    pub isa: u8,
    pub version: u32,
    pub len: u32,
    /// engines resumed on: all of them, or this many rotating with the case
    pub targets: usize,
}
pub struct W {
    b: Bench,
    opt: Opt,
}

pub fn mk(p: &Plan) -> W {
    let mut opt = Opt::new(p.isa, p.version, MEM);
    opt.ecall = EcallModel::Rich;
    let eks = if p.xlen == 32 { ALL32 } else { ALL64 };
    W { b: Bench::new(eks, &opt, p.xlen), opt }
}

pub fn toks(xlen: u32, isa: u8) -> Vec<Tok> {
    let mut v = vec![
        Tok("addi x5,x5,1", addi(5, 5, 1)),
        Tok("sw x6,0(x8)", enc(Op::SW, 0, 8, 6, 0)),
        Tok("sw x5,0(x12)", enc(Op::SW, 0, 12, 5, 0)),
        Tok("sb x6,1(x13)", enc(Op::SB, 0, 13, 6, 1)),
        Tok("lw x6,4(x8)", enc(Op::LW, 6, 8, 0, 4)),
        Tok("lw x7,0(x12)", enc(Op::LW, 7, 12, 0, 0)),
        Tok("bne x9,x0,-8", br(1, 9, 0, -8)),
        Tok("addi x9,x9,-1", addi(9, 9, -1)),
        Tok("jal x1,+8", jal(1, 8)),
        Tok("jalr x0,x1,0", jalr(0, 1, 0)),
        Tok("ecall", ECALL),
        Tok("addi x17,x0,64", addi(17, 0, 64)),
        Tok("sw x6,0(x14)", enc(Op::SW, 0, 14, 6, 0)),
        Tok("lui x31,0x80001", lui(31, 0x80001)),
        Tok("c.addi x5,-3", c_addi(5, -3) as u32),
    ];
    if xlen == 64 {
        v.push(Tok("sd x6,-3(x12)", enc(Op::SD, 0, 12, 6, -3)));
    }
    if isa & 4 != 0 {
        v.push(Tok("lr.w x5,(x8)", enc(Op::LR_W, 5, 8, 0, 0)));
        v.push(Tok("sc.w x7,x6,(x8)", enc(Op::SC_W, 7, 8, 6, 0)));
        v.push(Tok("lr.w x5,(x13)", enc(Op::LR_W, 5, 13, 0, 0)));
        v.push(Tok("sc.w x7,x6,(x13)", enc(Op::SC_W, 7, 13, 6, 0)));
        // a reservation at address zero
        v.push(Tok("lr.w x5,(x0)", enc(Op::LR_W, 5, 0, 0, 0)));
        v.push(Tok("sc.w x7,x6,(x0)", enc(Op::SC_W, 7, 0, 6, 0)));
        v.push(Tok("amoadd.w x7,x5,(x12)", enc(Op::AMOADD_W, 7, 12, 5, 0)));
    }
    v
}

/// The model at every boundary and how the program ends.
struct Hist {
    at: Vec<Spec>,
    /// boundaries reached by a handler that gave up
    yields: Vec<usize>,
    end: Option<Result<i8, Trap>>,
}
fn history(s0: &Spec) -> Hist {
    let mut s = s0.clone();
    s.running = true;
    let mut h = Hist { at: vec![], yields: vec![], end: None };
    while h.at.len() < FUEL {
        h.at.push(s.clone());
        match s.step(&|i| cost_of(i.op), false) {
            Ok(Step::Ok) => {}
            Ok(Step::Exit) => {
                h.end = Some(Ok(s.exit));
                h.at.push(s);
                return h;
            }
            Err(Trap(k)) if k == [Kind::Ext] => {
                s.pc = s.m(s.pc.wrapping_add(4));
                h.yields.push(h.at.len());
            }
            Err(t) => {
                h.end = Some(Err(t));
                // the state when it failed
                h.at.push(s);
                return h;
            }
        }
    }
    h
}

enum Stop {
    At(usize),
    End,
}
/// Run until the next stop; `left` yields have been met already.
fn go(e: &mut dyn Eng, h: &Hist, st: &mut Stats) -> Result<Stop, String> {
    let r = e.run();
    st.traces += 1;
    let by_cycles = |e: &dyn Eng| h.at.iter().position(|s| s.cycles == e.cycles()).ok_or(format!("{:?} stopped with {} cycles, which is no boundary", e.ek(), e.cycles()));
    if is(&r, Kind::Ext) {
        let j = by_cycles(e)?;
        if !h.yields.contains(&j) {
            return Err(format!("{:?} yielded at boundary {}", e.ek(), j));
        }
        return Ok(Stop::At(j));
    }
    if is(&r, Kind::Cycles) && e.max_cycles() != u64::MAX {
        return Ok(Stop::At(by_cycles(e)?));
    }
    match &h.end {
        None => {
            if !r.is_err() {
                return Err(format!("{:?}: endless program ended with {:?}", e.ek(), r));
            }
        }
        Some(sr) => {
            let s = h.at.last().unwrap();
            let cmp = if sr.is_ok() {
                cmp_end(e, s, &r, sr)?;
                if e.cycles() != s.cycles {
                    return Err(format!("{:?} finished with {} cycles instead of {}", e.ek(), e.cycles(), s.cycles));
                }
                true
            } else {
                cmp_end_block(e, s, &r, sr)?
            };
            if cmp {
                cmp_mem(e, &s.mem, &pages(s), 0)?;
            }
        }
    }
    Ok(Stop::End)
}
/// Pages worth comparing byte by byte: those the model knows plus neighbours.
fn pages(s: &Spec) -> Vec<u64> {
    let mut v: Vec<u64> = (0..s.mem.pages.len() as u64).filter(|p| s.mem.pages[*p as usize].is_some()).collect();
    v.extend([0, 3, 6, 7, 0xa, 0x3f, 0x40, 0x51, 0x7f]);
    v.sort_unstable();
    v.dedup();
    v
}
fn same(e: &mut dyn Eng, s: &Spec, what: &str) -> Result<(), String> {
    let x = e.x();
    for k in 0..32 {
        if x[k] != s.x[k] {
            return Err(format!("{} {:?}: x{} = {:#x} instead of {:#x}", what, e.ek(), k, x[k], s.x[k]));
        }
    }
    if e.pc() != s.pc {
        return Err(format!("{} {:?}: pc = {:#x} instead of {:#x}", what, e.ek(), e.pc(), s.pc));
    }
    if e.lr() != s.lr {
        return Err(format!("{} {:?}: reservation {:#x} instead of {:#x}", what, e.ek(), e.lr(), s.lr));
    }
    cmp_mem(e, &s.mem, &pages(s), 0).map_err(|m| format!("{} {}", what, m))
}

fn source(img: &[u8]) -> Ds {
    let mut code = vec![0u8; 4096];
    code[..img.len()].copy_from_slice(img);
    // odd prefix so that offsets matter
    let mut f = vec![0xee; 24];
    f.extend_from_slice(&code);
    f.extend_from_slice(&[0xdd; 16]);
    let d: Vec<u8> = (0..3 * 4096u32).map(|k| (k.wrapping_mul(0x9e37) >> 8) as u8).collect();
    Ds { data: vec![f.into(), d.into()] }
}
fn ctx(ds: &Ds) -> Ctx2 {
    Ctx2::new(ds.clone())
}

pub struct Start {
    pub x: [u64; 32],
    pub img: Vec<u8>,
    pub ds: Ds,
}
/// Bring an engine that has been used before to the start state (as a fresh machine would be).
fn reset(e: &mut dyn Eng, s: &Spec, i: &Start, ver: Ver, max: u64) -> Result<Ctx2, String> {
    let er = |x: ckb_vm::Error| format!("setting up: {:?}", x);
    e.reset(max).map_err(er)?;
    e.fresh_decoder();
    for k in 1..32 {
        e.set_x(k, i.x[k]);
    }
    e.set_pc(CODE);
    let mut c = ctx(&i.ds);
    match ver {
        Ver::V1 => {
            e.init_pages(CODE, 4096, EXEC | FREEZED, Some(Bytes::from(i.img.clone())), 0).map_err(er)?;
            e.store_bytes(D0, &s.mem.page(D0 / PAGE)).map_err(er)?;
        }
        Ver::V2 => {
            e.init_pages(CODE, 4096, EXEC | FREEZED, Some(i.ds.data[0].slice(24..24 + 4096)), 0).map_err(er)?;
            e.c2_track(&mut c, CODE, 4096, 0, 24).map_err(er)?;
            // a page and a half of external data; the last page is therefore not tracked
            e.c2_store_bytes(&mut c, D0, 1, 0x123, 0x1800, 0x2000).map_err(er)?;
            // a page in the second frame, whole
            e.c2_store_bytes(&mut c, D2, 1, 0, 0x1000, 0x2008).map_err(er)?;
        }
    }
    Ok(c)
}
fn start_model(s: &mut Spec, i: &Start, ver: Ver) {
    let c = s.c;
    let size = s.mem.size;
    let log = EcallModel::Rich;
    *s = Spec::new(c, size);
    s.ecall = log;
    s.x = i.x;
    s.pc = CODE;
    s.mem.poke(CODE, &i.img);
    s.mem.flags[(CODE / PAGE) as usize] = EXEC | FREEZED | DIRTY;
    match ver {
        Ver::V1 => {
            let d: Vec<u8> = (0..4096u32).map(|k| (k * 29 ^ 0x33) as u8).collect();
            s.mem.poke(D0, &d);
            s.mem.flags[(D0 / PAGE) as usize] = DIRTY;
        }
        Ver::V2 => {
            s.mem.flags[(CODE / PAGE) as usize] = EXEC | FREEZED;
            let d = &i.ds.data[1];
            s.mem.poke(D0, &d[0x123..0x123 + 0x1800]);
            s.mem.poke(D2, &d[..0x1000]);
            s.mem.flags[(D0 / PAGE) as usize + 1] = DIRTY;
            s.mem.poke(0x2000, &(d.len() as u64 - 0x123).to_le_bytes());
            s.mem.poke(0x2008, &(d.len() as u64).to_le_bytes());
            s.mem.flags[2] = DIRTY;
        }
    }
}
fn save(e: &mut dyn Eng, c: &Ctx2, ver: Ver) -> Result<Saved, String> {
    match ver {
        Ver::V1 => e.snap1().map(Saved::A),
        Ver::V2 => e.snap2(c).map(Saved::B),
    }
    .map_err(|x| format!("{:?}: making the snapshot failed: {:?}", e.ek(), x))
}
fn load(ek: EK, opt: &Opt, ds: &Ds, sv: &Saved, cycles: u64) -> Result<(Box<dyn Eng>, Ctx2), String> {
    let mut o = opt.clone();
    o.max_cycles = 12345;
    let mut e = make(ek, &o);
    let mut c = ctx(ds);
    match sv {
        Saved::A(s) => {
            e.resume1(s).map_err(|x| format!("{:?}: resuming failed: {:?}", ek, x))?;
            if e.cycles() != 0 || e.max_cycles() != 12345 {
                return Err(format!("{:?}: resuming changed cycles to {} of {}", ek, e.cycles(), e.max_cycles()));
            }
            e.set_cycles(cycles);
        }
        Saved::B(s) => {
            e.resume2(&mut c, s).map_err(|x| format!("{:?}: resuming failed: {:?}", ek, x))?;
        }
    }
    Ok((e, c))
}

pub fn case(w: &mut W, p: &Plan, i: u64, st: &mut Stats) -> CaseRes {
    let t = toks(p.xlen, p.isa);
    let d = digits(i, &vec![t.len() as u64; p.len as usize]);
    let prog: Vec<(String, u32)> = d.iter().map(|k| (t[*k].0.to_string(), t[*k].1)).collect();
    program(w, p, &prog, i, st)
}
/// Every kind of write, each followed by a read of what it wrote.
pub fn writes(p: &Plan) -> Vec<Vec<(String, u32)>> {
    let mut v = vec![];
    for op in memops(Cfg { xlen: p.xlen, isa: p.isa, version: p.version }) {
        if matches!(op, Op::LB | Op::LH | Op::LW | Op::LBU | Op::LHU | Op::LWU | Op::LD | Op::LR_W | Op::LR_D) {
            continue;
        }
        for base in [8, 12, 13, 14] {
            let mut q = vec![];
            if matches!(op, Op::SC_W | Op::SC_D) {
                let lr = if op == Op::SC_W { Op::LR_W } else { Op::LR_D };
                q.push((format!("{:?} (x{})", lr, base), enc(lr, 5, base, 0, 0)));
            }
            q.push((format!("{:?} (x{})", op, base), enc(op, 7, base, 6, 0)));
            q.push((format!("LW (x{})", base), enc(Op::LW, 5, base, 0, 0)));
            v.push(q);
        }
    }
    v
}
pub fn program(w: &mut W, p: &Plan, prog: &[(String, u32)], i: u64, st: &mut Stats) -> CaseRes {
    let mut c = Code::new();
    for k in prog {
        c.w(k.1);
    }
    let exit = CODE + c.0.len() as u64;
    c.exit();
    let show = || format!("{} {:?}", p.name, prog.iter().map(|k| &k.0).collect::<Vec<_>>());
    let mut x = bg(p.xlen);
    x[1] = exit;
    x[5] = 7;
    x[6] = 5;
    x[8] = D0 + 0x800;
    x[9] = 2;
    x[10] = 9;
    x[12] = D0 + 0xffe;
    x[13] = D2 + 0x10;
    x[14] = CODE;
    x[17] = 67;
    let init = Start { x, ds: source(&c.0), img: c.0 };
    start_model(&mut w.b.s, &init, p.ver);
    let h = history(&w.b.s);
    st.states += h.at.len() as u64;
    st.transitions += h.at.len() as u64 - 1;
    let all: &[EK] = if p.xlen == 32 { ALL32 } else { ALL64 };
    let n = all.len();
    let stop_max = if h.end.is_none() { h.at.last().unwrap().cycles - 1 } else { u64::MAX };
    // boundaries to stop at; the last entry of the history is the end
    let last = h.at.len() - if h.end.is_some() { 2 } else { 1 };
    for ei in 0..n {
        let e1 = w.b.engs[ei].as_mut();
        let mut seen = vec![false; h.at.len()];
        for k in 0..=last {
            let max = h.at[k].cycles;
            let mut c1 = reset(e1, &w.b.s, &init, p.ver, max).map_err(|m| format!("{}: {:?} {}", show(), e1.ek(), m))?;
            let mut saved = vec![];
            for _ in 0..2 * FUEL {
                let j = match go(e1, &h, st).map_err(|m| format!("{}: {}", show(), m))? {
                    Stop::End => break,
                    Stop::At(j) => j,
                };
                let bad = |m: String| format!("{}: boundary {} of {}: {}", show(), j, h.at.len() - 1, m);
                if !seen[j] {
                    seen[j] = true;
                    same(e1, &h.at[j], "stopped").map_err(bad)?;
                    let (cy, mx) = (e1.cycles(), e1.max_cycles());
                    let s = save(e1, &c1, p.ver).map_err(bad)?;
                    same(e1, &h.at[j], "after making the snapshot").map_err(bad)?;
                    if e1.cycles() != cy || e1.max_cycles() != mx {
                        return Err(bad(format!("{:?}: making the snapshot changed the cycles", e1.ek())));
                    }
                    saved.push((j, s, cy, mx));
                }
                if e1.max_cycles() != u64::MAX {
                    // over the limit: raise it
                    if e1.max_cycles() == stop_max {
                        break;
                    }
                    e1.set_max(stop_max);
                }
                let _ = &mut c1;
            }
            for (j, s, cy, mx) in saved {
                let bad = |m: String| format!("{}: from {:?}, boundary {} of {}: {}", show(), all[ei], j, h.at.len() - 1, m);
                for t in 0..p.targets.min(n) {
                    let ti = (ei + t + if p.targets >= n { 0 } else { (i as usize) + j }) % n;
                    let (mut e2, mut c2) = load(all[ti], &w.opt, &init.ds, &s, cy).map_err(bad)?;
                    let e2 = e2.as_mut();
                    same(e2, &h.at[j], "resumed").map_err(bad)?;
                    if p.ver == Ver::V2 && (e2.cycles(), e2.max_cycles()) != (cy, mx) {
                        return Err(bad(format!("{:?}: resumed with {} cycles of {} instead of {} of {}", e2.ek(), e2.cycles(), e2.max_cycles(), cy, mx)));
                    }
                    st.bump("resumed", 1);
                    // step on, then save and restore again on a third engine
                    e2.set_max(h.at[(j + 1).min(last)].cycles.min(stop_max));
                    let mut again = true;
                    for _ in 0..2 * FUEL {
                        let k = match go(e2, &h, st).map_err(bad)? {
                            Stop::End => break,
                            Stop::At(k) => k,
                        };
                        same(e2, &h.at[k], "resumed and stopped").map_err(bad)?;
                        if again {
                            again = false;
                            let s2 = save(e2, &c2, p.ver).map_err(bad)?;
                            let (mut e3, _) = load(all[(ti + 1 + i as usize) % n], &w.opt, &init.ds, &s2, e2.cycles()).map_err(bad)?;
                            same(e3.as_mut(), &h.at[k], "resumed twice").map_err(bad)?;
                            e3.set_max(stop_max);
                            for _ in 0..FUEL {
                                if let Stop::End = go(e3.as_mut(), &h, st).map_err(bad)? {
                                    break;
                                }
                                if stop_max != u64::MAX {
                                    break;
                                }
                            }
                        }
                        if e2.max_cycles() != u64::MAX {
                            if e2.max_cycles() == stop_max {
                                break;
                            }
                            e2.set_max(stop_max);
                        }
                        let _ = &mut c2;
                    }
                }
            }
        }
    }
    st.bump(if h.end.is_none() { "endless" } else if h.end.as_ref().unwrap().is_ok() { "finished" } else { "trapped" }, 1);
    st.sample(|| format!("{}: {} boundaries, {} yields", show(), h.at.len(), h.yields.len()));
    Ok(())
}

/// Snapshots of a memory of the default size with few or many pages written: each page alone, with
/// neighbours and with the page half the memory away, and all pages below it.
pub fn every_page(r: &mut Run, ver: Ver) {
    const BIG: u64 = 4 << 20;
    const N: u64 = BIG / PAGE;
    const FROM: &[EK] = &[EK::I64Sparse, EK::AsmSimple, EK::I64Flat, EK::AsmDyn, EK::T64Sparse];
    const TO: &[EK] = &[EK::AsmSimple, EK::I64Sparse, EK::AsmDyn, EK::I64Flat];
    r.bound("4 MiB: saved and restored with every single page written, with neighbours and the page 2 MiB away, and with all pages below every 32nd one, one of them executable");
    let mk = || -> (Vec<Box<dyn Eng>>, Vec<Box<dyn Eng>>) {
        let o = Opt::new(7, 2, BIG as usize);
        (FROM.iter().map(|k| make(*k, &o)).collect(), TO.iter().map(|k| make(*k, &o)).collect())
    };
    let src: Vec<u8> = (0..3 * PAGE).map(|k| (k / 7 ^ k) as u8 | 1).collect();
    let src = Bytes::from(src);
    r.phase("every page of 4 MiB", N * 2 + N / 32, 4, mk, |w, i, st| {
        let (p, set): (u64, Vec<u64>) = match i / N {
            0 => (i, vec![i]),
            1 => (i - N, vec![i - N, (i - N + 1) % N, (i - N) ^ N / 2]),
            _ => ((i - 2 * N) * 32, (0..=(i - 2 * N) * 32).collect()),
        };
        let (k1, k2) = ((i % FROM.len() as u64) as usize, (i / 3 % TO.len() as u64) as usize);
        let (a, b) = (&mut w.0[k1], &mut w.1[k2]);
        let what = |m: String| format!("pages {:?} written on {:?}, restored on {:?}: {}", if set.len() > 3 { &set[..1] } else { &set[..] }, FROM[k1], TO[k2], m);
        let er = |x: ckb_vm::Error| what(format!("{:?}", x));
        a.reset_memory().map_err(er)?;
        b.reset_memory().map_err(er)?;
        let ds = || Ds { data: vec![src.clone()] };
        let (mut c1, mut c2) = (Ctx2::new(ds()), Ctx2::new(ds()));
        let mut model = vec![None; N as usize];
        for &q in &set {
            a.st(8, q * PAGE + 0x128, q * 0x0101_0101_0101 + 1).map_err(er)?;
            model[q as usize] = Some(q * 0x0101_0101_0101 + 1);
        }
        // for version 2: one page tracked, next to the written one
        let t = (p + 5) % (N - 1);
        let track = ver == Ver::V2 && !set.contains(&t);
        if track {
            a.c2_store_bytes(&mut c1, t * PAGE, 0, PAGE, PAGE, PAGE * (p % N) + 0x200).map_err(er)?;
        }
        a.set_flag(p, EXEC).map_err(er)?;
        a.set_lr(p * PAGE);
        match ver {
            Ver::V1 => {
                let s = a.snap1().map_err(er)?;
                b.resume1(&s).map_err(er)?;
            }
            Ver::V2 => {
                let s = a.snap2(&c1).map_err(er)?;
                if track && (s.pages_from_source.len() != 1 || s.pages_from_source[0].0 != t * PAGE) {
                    return Err(what(format!("page {} was to come from the source, the snapshot has {:?}", t, s.pages_from_source)));
                }
                b.resume2(&mut c2, &s).map_err(er)?;
            }
        }
        if b.lr() != p * PAGE {
            return Err(what(format!("reservation {:#x}", b.lr())));
        }
        for q in 0..N {
            let near = model[q as usize].is_some() || q == t || q == p || (q ^ p).count_ones() == 1 || q % 64 < 2;
            let (f, g) = (a.flag(q).map_err(er)?, b.flag(q).map_err(er)?);
            if f & EXEC != g & EXEC || (ver == Ver::V1 && f != g) {
                return Err(what(format!("flags of page {} are {:#x} instead of {:#x}", q, g, f)));
            }
            if near {
                let (x, y) = (a.load_bytes(q * PAGE, PAGE).map_err(er)?, b.load_bytes(q * PAGE, PAGE).map_err(er)?);
                if x != y {
                    return Err(what(format!("page {} differs", q)));
                }
                let v = b.ld(8, q * PAGE + 0x128).map_err(er)?;
                let want = if track && q == t { u64::from_le_bytes(src[(PAGE + 0x128) as usize..(PAGE + 0x130) as usize].try_into().unwrap()) } else { model[q as usize].unwrap_or(0) };
                if v != want {
                    return Err(what(format!("page {} reads {:#x} instead of {:#x}", q, v, want)));
                }
            }
        }
        st.states += set.len() as u64 + 2;
        st.transitions += set.len() as u64 + 2;
        st.traces += 2;
        Ok(())
    });
}

/// Three runs of pages side by side, each of any length and of any kind: written, written and
/// executable or frozen, mapped from either of two sources at the same or another offset, untouched.
pub fn page_runs(r: &mut Run, ver: Ver) {
    let lens: Vec<u64> = if r.quick() { vec![1, 2, 3, 5, 8, 17] } else { (1..=20).collect() };
    page_runs_of(r, ver, "runs of pages", 64, lens);
    let lens: Vec<u64> = if r.quick() && ver == Ver::V2 { vec![290] } else if r.quick() { vec![33, 290] } else { vec![33, 70, 129, 257, 300, 330] };
    page_runs_of(r, ver, "long runs of pages", 1024, lens);
}
fn page_runs_of(r: &mut Run, ver: Ver, name: &str, np: u64, lens: Vec<u64>) {
    const FROM: &[EK] = &[EK::I64Sparse, EK::AsmSimple, EK::I64Flat];
    const TO: &[EK] = &[EK::AsmSimple, EK::I64Flat, EK::I64Sparse];
    let sz = np * PAGE;
    let kinds: &[u8] = if ver == Ver::V1 { b"wxfzu" } else { b"wxfzuabcde" };
    r.bound("three neighbouring runs of 1 to 17 (thorough: every length to 20) and of 33 and 290 (6 lengths to 330) pages, each written, executable, frozen, zero, untouched or (version 2) mapped from one of two sources at the same or other offsets");
    let (nk, nl) = (kinds.len() as u64, lens.len() as u64);
    let rx = [nk, nk, nk, nl, nl, nl];
    let src = |id: u64| -> Bytes { (0..(np + 6) * PAGE).map(|k| ((k / PAGE * 5 + k % 251) as u8 ^ (id as u8 * 0x55)) | 1).collect::<Vec<u8>>().into() };
    let src = [src(0), src(1)];
    let mk = || -> (Vec<Box<dyn Eng>>, Vec<Box<dyn Eng>>) {
        let o = Opt::new(7, 2, sz as usize);
        (FROM.iter().map(|k| make(*k, &o)).collect(), TO.iter().map(|k| make(*k, &o)).collect())
    };
    r.phase(name, rx.iter().product(), 16, mk, |w, i, st| {
        let d = digits(i, &rx);
        if (0..2).any(|k| d[k] == d[k + 1] && d[k + 4] > 0) {
            return Ok(()); // one longer run
        }
        let (k1, k2) = ((i % FROM.len() as u64) as usize, (i / 5 % TO.len() as u64) as usize);
        let (a, b) = (&mut w.0[k1], &mut w.1[k2]);
        let runs: Vec<(u8, u64)> = (0..3).map(|k| (kinds[d[k]], lens[d[k + 3]])).collect();
        let what = |m: String| format!("runs {:?} on {:?}, restored on {:?}: {}", runs.iter().map(|x| (x.0 as char, x.1)).collect::<Vec<_>>(), FROM[k1], TO[k2], m);
        let er = |x: ckb_vm::Error| what(format!("{:?}", x));
        a.reset_memory().map_err(er)?;
        b.reset_memory().map_err(er)?;
        let ds = || Ds { data: src.to_vec() };
        let mut c1 = Ctx2::new(ds());
        // kind and source of every page
        let mut page: Vec<(u8, Option<(u32, u64)>)> = vec![(b'u', None); np as usize];
        let mut p = 2;
        for (k, n) in &runs {
            // a mapping at another offset than the one the page before it has
            let map = match k {
                b'a' | b'e' => Some((0, 0)),
                b'b' => Some((1, 0)),
                b'c' => Some((0, 1)),
                b'd' => Some((1, 3)),
                _ => None,
            };
            if let Some((id, sh)) = map {
                // where the size goes counts as written
                a.c2_store_bytes(&mut c1, p * PAGE, id, (p + sh) * PAGE, n * PAGE, 0x8).map_err(er)?;
            }
            for q in p..p + n {
                page[q as usize] = (*k, map.map(|(id, sh)| (id, q + sh)));
                match k {
                    b'w' | b'x' | b'f' => a.st(8, q * PAGE + 0x40, q * 0x0101 + 0x77).map_err(er)?,
                    b'z' => a.st(1, q * PAGE + 0xfff, 0).map_err(er)?,
                    _ => {}
                }
                let f = match k {
                    b'x' | b'e' => EXEC,
                    b'f' => FREEZED,
                    _ => 0,
                };
                if f != 0 {
                    a.set_flag(q, f).map_err(er)?;
                }
            }
            p += n;
        }
        if ver == Ver::V2 {
            a.st(8, 0x8, 5).map_err(er)?;
        }
        let mut other = None;
        for round in 0..2 {
            let (from, to): (&mut Box<dyn Eng>, &mut Box<dyn Eng>) = if round == 0 { (&mut *a, &mut *b) } else { (&mut *b, &mut *a) };
            match ver {
                Ver::V1 => {
                    let s = from.snap1().map_err(er)?;
                    if round == 1 {
                        to.reset_memory().map_err(er)?;
                    }
                    to.resume1(&s).map_err(er)?;
                }
                Ver::V2 => {
                    let s = from.snap2(other.as_ref().unwrap_or(&c1)).map_err(er)?;
                    let mut seen = vec![0u8; np as usize];
                    for x in &s.pages_from_source {
                        for q in x.0 / PAGE..(x.0 + x.4) / PAGE {
                            seen[q as usize] |= 1;
                        }
                    }
                    for x in &s.dirty_pages {
                        for q in x.0 / PAGE..(x.0 + x.2.len() as u64) / PAGE {
                            seen[q as usize] |= 2;
                        }
                    }
                    for q in 2..np as usize {
                        let want = if page[q].1.is_some() { 1 } else if page[q].0 == b'u' { 0 } else { 2 };
                        if seen[q] != want {
                            return Err(what(format!("page {} is kept {} instead of {} (1: from its source, 2: itself), round {}", q, seen[q], want, round)));
                        }
                    }
                    let mut c2 = Ctx2::new(ds());
                    if round == 1 {
                        to.reset_memory().map_err(er)?;
                    }
                    to.resume2(&mut c2, &s).map_err(er)?;
                    other = Some(c2);
                }
            }
            for q in 0..np {
                let (k, map) = page[q as usize];
                let f = to.flag(q).map_err(er)?;
                let want = match k {
                    b'x' | b'e' => EXEC,
                    b'f' => FREEZED,
                    _ => 0,
                };
                if f & (EXEC | FREEZED) != want {
                    return Err(what(format!("page {} has flags {:#x}, round {}", q, f, round)));
                }
                let got = to.load_bytes(q * PAGE, PAGE).map_err(er)?;
                let ok = match (map, k) {
                    (Some((id, sp)), _) => got[..] == src[id as usize][(sp * PAGE) as usize..((sp + 1) * PAGE) as usize],
                    (None, b'w' | b'x' | b'f') => got[0x40..0x48] == (q * 0x0101 + 0x77).to_le_bytes() && got[..0x40].iter().chain(&got[0x48..]).all(|x| *x == 0),
                    _ if q == 0 && ver == Ver::V2 => got[8] == 5,
                    _ => got.iter().all(|x| *x == 0),
                };
                if !ok {
                    return Err(what(format!("page {} holds the wrong bytes, round {}", q, round)));
                }
            }
        }
        st.states += runs.len() as u64 + 2;
        st.transitions += runs.len() as u64 + 2;
        st.traces += 2;
        Ok(())
    });
}

/// Every register, the program counter, the reservation, the counter and the limit at every boundary
/// value, alone and together, between every pair of engines.
pub fn fields(r: &mut Run, ver: Ver) {
    r.bound("every single saved field (31 registers, program counter, reservation; version 2: cycles and limit) and all together at every boundary value, between all pairs of engines");
    for xlen in [64u32, 32] {
        let eks = if xlen == 64 { ALL64 } else { ALL32 };
        let vals = if xlen == 64 { edge64() } else { edge32() };
        let (ne, nv) = (eks.len() as u64, vals.len() as u64);
        let mk = || -> (Vec<Box<dyn Eng>>, Vec<Box<dyn Eng>>) {
            let o = Opt::new(7, 2, 512 << 10);
            (eks.iter().map(|k| make(*k, &o)).collect(), eks.iter().map(|k| make(*k, &o)).collect())
        };
        r.phase(&format!("saved fields, {} bits", xlen), ne * ne * nv, 8, mk, |w, i, st| {
            let d = digits(i, &[ne, ne, nv]);
            let (a, b) = (&mut w.0[d[0]], &mut w.1[d[1]]);
            let v = vals[d[2]];
            let m = |v: u64| if xlen == 32 { v as u32 as u64 } else { v };
            // 0: all, 1..=31: registers, 32: pc, 33: reservation, 34: cycles, 35: limit
            for f in 0..36usize {
                let pick = |k: usize| if f == 0 || f == k { v } else { 0x0123_4567_89ab_cdefu64.rotate_left(k as u32 * 7).wrapping_mul(2 * k as u64 + 1) };
                for k in 1..32 {
                    a.set_x(k, m(pick(k)));
                }
                a.set_pc(m(pick(32)));
                a.set_lr(m(pick(33)));
                a.set_cycles(pick(34));
                a.set_max(pick(35));
                let er = |x: ckb_vm::Error| format!("{:?} to {:?}, field {} = {:#x}: {:?}", eks[d[0]], eks[d[1]], f, v, x);
                let ds = || Ds { data: vec![] };
                match ver {
                    Ver::V1 => {
                        let s = a.snap1().map_err(er)?;
                        b.resume1(&s).map_err(er)?;
                    }
                    Ver::V2 => {
                        let s = a.snap2(&Ctx2::new(ds())).map_err(er)?;
                        b.resume2(&mut Ctx2::new(ds()), &s).map_err(er)?;
                    }
                }
                let all = |e: &mut Box<dyn Eng>| -> Vec<u64> {
                    let mut x = e.x().to_vec();
                    x.extend([e.pc(), e.lr()]);
                    if ver == Ver::V2 {
                        x.extend([e.cycles(), e.max_cycles()]);
                    }
                    x
                };
                let want: Vec<u64> = (0..if ver == Ver::V2 { 36 } else { 34 }).map(|k| if k == 0 { 0 } else if k < 34 { m(pick(k)) } else { pick(k) }).collect();
                for (who, e) in [("the saved machine", &mut *a), ("the restored machine", &mut *b)] {
                    let got = all(e);
                    if got != want {
                        let k = (0..want.len()).find(|k| got[*k] != want[*k]).unwrap();
                        return Err(format!("{:?} to {:?}, field {} = {:#x}: {} has {:#x} instead of {:#x} in field {}", eks[d[0]], eks[d[1]], f, v, who, got[k], want[k], k));
                    }
                }
            }
            st.states += 36;
            st.transitions += 72;
            st.traces += 2;
            Ok(())
        });
    }
}
