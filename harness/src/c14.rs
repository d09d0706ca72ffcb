//! C14: load-reserved, store-conditional and atomic operations.
use crate::asmb::*;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use std::sync::Arc;

const MEM: usize = 1 << 20;
const LO: u64 = 0x1_0000;
const HI: u64 = 0x9_0000;
/// the window straddles two frames
const DATA: u64 = 0xb_fff0;
const WIN: u64 = 64;
const XPAGE: u64 = 0xa_0000;

pub struct Tok {
    pub name: String,
    pub w: u32,
}
/// x8 = p, x9 = p+4, x16 = p (again), x12 = q on the next page, x13 in an executable page,
/// x14 = the last 4 bytes of memory, x15 = the end of the address space.
fn toks(xlen: u32, deep: bool) -> Vec<Tok> {
    let mut v = vec![];
    let mut t = |op: Op, rd: u32, rs1: u32, rs2: u32, imm: i32| v.push(Tok { name: format!("{:?} x{},x{},x{},{}", op, rd, rs1, rs2, imm), w: enc(op, rd, rs1, rs2, imm) });
    let wide = xlen == 64;
    for p in [8, 9, 12] {
        t(Op::LR_W, 5, p, 0, 0);
        t(Op::SC_W, 6, p, 7, 0);
        if wide {
            t(Op::SC_D, 6, p, 7, 0);
        }
    }
    if wide {
        t(Op::LR_D, 5, 8, 0, 0);
        t(Op::LR_D, 5, 12, 0, 0);
        t(Op::AMOADD_D, 5, 8, 7, 0);
    }
    t(Op::SC_W, 0, 16, 5, 0);
    t(Op::LR_W, 8, 16, 0, 0);
    t(Op::SC_W, 8, 8, 8, 0);
    t(Op::AMOSWAP_W, 7, 8, 7, 0);
    t(Op::AMOADD_W, 5, 9, 7, 0);
    t(Op::SW, 0, 8, 7, 0);
    t(Op::LW, 7, 8, 0, 0);
    t(Op::ADDI, 8, 16, 0, 0);
    t(Op::ADDI, 7, 7, 0, 5);
    if !deep {
        t(Op::LR_W, 0, 14, 0, 0);
        t(Op::SC_W, 6, 14, 7, 0);
        t(Op::LR_W, 5, 15, 0, 0);
        t(Op::SC_W, 6, 15, 7, 0);
        t(Op::LR_W, 5, 13, 0, 0);
        t(Op::SC_W, 6, 13, 7, 0);
        t(Op::AMOMAX_W, 6, 13, 7, 0);
        t(Op::AMOMINU_W, 6, 14, 7, 0);
        t(Op::SC_W, 16, 8, 16, 0);
        t(Op::SC_W, 6, 0, 7, 0);
        t(Op::LR_W, 5, 0, 0, 0);
        if wide {
            t(Op::LR_D, 5, 14, 0, 0);
            t(Op::SC_D, 6, 14, 7, 0);
            t(Op::LR_D, 5, 13, 0, 0);
            t(Op::SC_D, 6, 13, 7, 0);
            t(Op::AMOXOR_D, 9, 9, 9, 0);
        }
    }
    v.push(Tok { name: "yield".into(), w: ECALL });
    v.push(Tok { name: "ebreak".into(), w: EBREAK });
    v
}

struct W {
    a: Arena,
    pc: u64,
    at: u64,
}
fn mk(xlen: u32, version: u32, isa: u8) -> W {
    let mut o = Opt::new(isa, version, MEM);
    o.cost = Some(Arc::new(|_| 1));
    // every call interrupts the run
    o.hooks = vec![Hook { init: None, call: Arc::new(|_| Err(ckb_vm::Error::External("yield".into()))) }];
    let mut b = Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &o, xlen);
    b.s.hooks = o.hooks.clone();
    b.put_code(XPAGE, &[0x5a; 64]);
    W { a: Arena::new(b, LO, HI), pc: 0, at: u64::MAX }
}
fn regs(xlen: u32, p: u64) -> [u64; 32] {
    let mut x = bg(xlen);
    let top = if xlen == 64 { u64::MAX } else { 0xffff_ffff };
    x[7] = 0x8123_4567_89ab_cdef & top;
    x[8] = p;
    x[9] = p + 4;
    x[16] = p;
    x[12] = DATA + 16;
    x[13] = XPAGE + 8;
    x[14] = MEM as u64 - 4;
    x[15] = top - 3;
    x[17] = 1;
    x
}

/// Run on every engine, resuming after each yield; compare everything.
fn go(b: &mut Bench, pc: u64, x: &[u64; 32], lr: u64, st: &mut Stats) -> CaseRes {
    let pat: Vec<u8> = (0..WIN).map(|k| (k as u8).wrapping_mul(7) ^ 0xa3).collect();
    let tail = [1u8, 2, 3, 0x84];
    let s = &mut b.s;
    s.x = *x;
    s.pc = pc;
    s.lr = lr;
    s.cycles = 0;
    s.exit = 0;
    s.mem.poke(DATA, &pat);
    s.mem.poke(MEM as u64 - 4, &tail);
    s.mem.poke(0, &[0; 8]);
    let s0 = s.steps;
    let mut seen = vec![];
    loop {
        let r = s.run(&|_| 1, false, 100).ok_or("model does not end")?;
        let again = matches!(&r, Err(t) if t.0 == [Kind::Ext]);
        let data: Vec<u8> = (0..WIN).map(|k| s.mem.rd8(DATA + k)).chain((0..4).map(|k| s.mem.rd8(MEM as u64 - 4 + k))).chain((0..8).map(|k| s.mem.rd8(k))).collect();
        seen.push((s.x, s.trap_rd, s.lr, data, r));
        if !again {
            break;
        }
    }
    st.transitions += s.steps - s0;
    st.states += s.steps - s0 + 1;
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        for k in 1..32 {
            e.set_x(k, x[k]);
        }
        e.set_pc(pc);
        e.set_lr(lr);
        e.set_cycles(0);
        e.store_bytes(DATA, &pat).unwrap();
        e.store_bytes(MEM as u64 - 4, &tail).unwrap();
        e.store_bytes(0, &[0; 8]).unwrap();
        for (n, (hx, rd, hlr, data, hr)) in seen.iter().enumerate() {
            let r = e.run();
            st.traces += 1;
            let bad = |m: String| Err(format!("{:?}, part {}: {}", ek, n, m));
            match (&r, hr) {
                (Ok(a), Ok(b)) if a == b => {}
                (Err(a), Err(t)) if t.0.contains(&kind(a)) => {}
                (a, b) => return bad(format!("ended with {:?} instead of {:?}", a, b)),
            }
            let ex = e.x();
            for k in 0..32 {
                if ex[k] != hx[k] && !(hr.is_err() && *rd != 0 && k == *rd as usize) {
                    return bad(format!("x{} = {:#x} instead of {:#x}", k, ex[k], hx[k]));
                }
            }
            if e.lr() != *hlr {
                return bad(format!("reservation {:#x} instead of {:#x}", e.lr(), hlr));
            }
            let mut d = e.load_bytes(DATA, WIN).unwrap().to_vec();
            d.extend_from_slice(&e.load_bytes(MEM as u64 - 4, 4).unwrap());
            d.extend_from_slice(&e.load_bytes(0, 8).unwrap());
            if d != *data {
                return bad(format!("memory {} instead of {}", hex(&d), hex(data)));
            }
        }
    }
    Ok(())
}

fn sequences(r: &mut Run, xlen: u32, version: u32, len: u32, deep: bool) {
    let t = toks(xlen, deep);
    let n = t.len() as u64;
    let bases = [DATA, DATA + 12, DATA + 13];
    let lrs = [u64::MAX, DATA];
    r.phase(&format!("sequences of {} from {}, {} bits, version {}", len, n, xlen, version), n.pow(len) * 2, 1000, || mk(xlen, version, if version == 2 { 7 } else { 5 }), |w, i, st| {
        let d = digits(i / 2, &vec![n; len as usize]);
        let mut c = Code::new();
        for k in &d {
            c.w(t[*k].w);
        }
        c.w(addi(17, 0, 93)).w(ECALL);
        let pc = w.a.install(&[c.0])[0];
        let p = bases[(d.iter().sum::<usize>() + (i % 2) as usize) % 3];
        let x = regs(xlen, p);
        let lr = w.a.b.s.m(lrs[(i % 2) as usize]);
        let show = || d.iter().map(|k| t[*k].name.clone()).collect::<Vec<_>>().join("; ");
        st.sample(|| show());
        go(&mut w.a.b, pc, &x, lr, st).map_err(|m| format!("{} (p = {:#x}, reservation {:#x}): {}", show(), p, lr, m))
    });
}

/// Every operation over value pairs, register choices and alignments.
fn values(r: &mut Run, xlen: u32, version: u32) {
    use Op::*;
    let mut ops = vec![AMOSWAP_W, AMOADD_W, AMOXOR_W, AMOAND_W, AMOOR_W, AMOMIN_W, AMOMAX_W, AMOMINU_W, AMOMAXU_W, LR_W, SC_W];
    if xlen == 64 {
        ops.extend([AMOSWAP_D, AMOADD_D, AMOXOR_D, AMOAND_D, AMOOR_D, AMOMIN_D, AMOMAX_D, AMOMINU_D, AMOMAXU_D, LR_D, SC_D]);
    }
    let vals = edge64();
        // (rd, rs1, rs2, aq/rl)
    let forms: Vec<(u32, u32, u32, u32)> = vec![(5, 8, 7, 0), (7, 8, 7, 3), (8, 8, 7, 1), (5, 8, 8, 0), (8, 8, 8, 2), (0, 8, 7, 0), (5, 8, 0, 0), (0, 8, 8, 0)];
    let offs = [0u64, 8, 12, 13, 15];
    let nv = vals.len() as u64;
    let rx = [nv, nv, offs.len() as u64, 2, forms.len() as u64, ops.len() as u64];
    let per = rx[..4].iter().product::<u64>();
    r.phase(&format!("values, {} bits, version {}", xlen, version), rx.iter().product(), per, || mk(xlen, version, 5), |w, i, st| {
        let d = digits(i, &rx);
        let (op, f) = (ops[d[5]], forms[d[4]]);
        if w.at != i / per {
            let mut c = Code::new();
            let rs2 = if matches!(op, LR_W | LR_D) { 0 } else { f.2 };
            c.w(enc(op, f.0, f.1, rs2, 0) | f.3 << 25).w(addi(17, 0, 93)).w(crate::asmb::ECALL);
            w.pc = w.a.install(&[c.0])[0];
            w.at = i / per;
        }
        let p = DATA + offs[d[2]];
        let mut x = regs(xlen, p);
        x[7] = w.a.b.s.m(vals[d[0]]);
        let b = &mut w.a.b;
        let lr = if d[3] == 0 { b.s.m(u64::MAX) } else { p };
        let bytes = vals[d[1]].to_le_bytes();
        go_mem(b, w.pc, &x, lr, p, &bytes, st).map_err(|m| format!("{:?} {:?} at {:#x}, register {:#x}, memory {:#x}, reservation {:#x}: {}", op, f, p, x[7], vals[d[1]], lr, m))
    });
}
/// As `go` with 8 bytes of memory given.
fn go_mem(b: &mut Bench, pc: u64, x: &[u64; 32], lr: u64, p: u64, bytes: &[u8; 8], st: &mut Stats) -> CaseRes {
    let mut pat: Vec<u8> = (0..WIN).map(|k| (k as u8).wrapping_mul(7) ^ 0xa3).collect();
    pat[(p - DATA) as usize..(p - DATA) as usize + 8].copy_from_slice(bytes);
    let s = &mut b.s;
    s.x = *x;
    s.pc = pc;
    s.lr = lr;
    s.cycles = 0;
    s.exit = 0;
    s.mem.poke(DATA, &pat);
    let s0 = s.steps;
    let r = s.run(&|_| 1, false, 100).ok_or("model does not end")?;
    st.transitions += s.steps - s0;
    st.states += s.steps - s0 + 1;
    let want: Vec<u8> = (0..WIN).map(|k| s.mem.rd8(DATA + k)).collect();
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        for k in 1..32 {
            e.set_x(k, x[k]);
        }
        e.set_pc(pc);
        e.set_lr(lr);
        e.set_cycles(0);
        e.store_bytes(DATA, &pat).unwrap();
        let er = e.run();
        st.traces += 1;
        cmp_end(e, s, &er, &r)?;
        let d = e.load_bytes(DATA, WIN).unwrap();
        if d[..] != want[..] {
            return Err(format!("{:?}: memory {} instead of {}", e.ek(), hex(&d), hex(&want)));
        }
        if e.lr() != s.lr {
            return Err(format!("{:?}: reservation {:#x} instead of {:#x}", e.ek(), e.lr(), s.lr));
        }
    }
    Ok(())
}

/// Every atomic operation at every kind of address, after accesses that leave different pages
/// remembered: bounds, permissions, flags and contents of the pages around.
fn hostile(r: &mut Run, xlen: u32, version: u32) {
    let ops: Vec<Op> = memops(Cfg { xlen, isa: 5, version }).into_iter().filter(|o| *o as u8 >= Op::LR_W as u8 && matches!(form(*o).0, Form::Amo | Form::Lr)).collect();
    let top = if xlen == 64 { u64::MAX } else { 0xffff_ffff };
    let m = MEM as u64;
    let mut at = vec![XPAGE - 8, XPAGE - 4, XPAGE - 2, XPAGE, XPAGE + 8, XPAGE + PAGE - 4, XPAGE + PAGE - 1, XPAGE + PAGE, 0, 0xc_0000 - 4, 0xc_0000, m - 8, m - 7, m - 4, m - 3, m - 1, m, m + 4, 1 << 31, top - 7, top - 3, top];
    if xlen == 64 {
        at.extend([1 << 32, 1 << 63, (1 << 32) + DATA]);
    }
    let pre = [None, Some((Op::SW, DATA)), Some((Op::SW, XPAGE - 64)), Some((Op::SW, XPAGE + PAGE + 64)), Some((Op::LW, XPAGE + 64)), Some((Op::SW, m - 64)), Some((Op::SW, 64))];
    let forms: [(u32, u32); 3] = [(5, 7), (8, 7), (5, 8)];
    let rx = [at.len() as u64, 2, pre.len() as u64, forms.len() as u64, ops.len() as u64];
    let per = rx[..2].iter().product::<u64>();
    // what the pages hold: (start, length); the executable page keeps what it has
    const SPANS: &[(u64, u64)] = &[(0, 80), (XPAGE - 80, 80), (XPAGE + PAGE, 80), (0xb_ffc0, 128), (MEM as u64 - 80, 80)];
    r.phase(&format!("hostile addresses, {} bits, version {}", xlen, version), rx.iter().product(), per, || mk(xlen, version, 5), |w, i, st| {
        let d = digits(i, &rx);
        let (op, f) = (ops[d[4]], forms[d[3]]);
        if w.at != i / per {
            let mut c = Code::new();
            if let Some((o, _)) = pre[d[2]] {
                c.w(enc(o, 11, 10, 9, 0));
            }
            c.w(enc(op, f.0, 8, if matches!(op, Op::LR_W | Op::LR_D) { 0 } else { f.1 }, 0)).w(addi(10, 0, 3)).w(addi(17, 0, 93)).w(crate::asmb::ECALL);
            w.pc = w.a.install(&[c.0])[0];
            w.at = i / per;
        }
        let mut x = regs(xlen, DATA);
        x[8] = at[d[0]] & top;
        x[10] = pre[d[2]].map_or(0, |p| p.1);
        let b = &mut w.a.b;
        let lr = if d[1] == 0 { b.s.m(u64::MAX) } else { x[8] };
        let show = |m: String| format!("{:?} {:?} at {:#x} after {:x?}, reservation {:#x}: {}", op, f, x[8], pre[d[2]], lr, m);
        let s = &mut b.s;
        s.x = x;
        s.pc = w.pc;
        s.lr = lr;
        s.cycles = 0;
        s.exit = 0;
        let pat: Vec<u8> = (0..128).map(|k| (k as u8).wrapping_mul(11) ^ 0x91).collect();
        for (a, n) in SPANS {
            s.mem.poke(*a, &pat[..*n as usize]);
        }
        let pages: Vec<u64> = SPANS.iter().map(|s| s.0 / PAGE).chain([XPAGE / PAGE, 0xc0]).collect();
        for p in &pages {
            s.mem.flags[*p as usize] &= !DIRTY;
        }
        let s0 = s.steps;
        let sr = s.run(&|_| 1, false, 100).ok_or("model does not end")?;
        st.transitions += s.steps - s0;
        st.states += s.steps - s0 + 1;
        st.bump(if sr.is_ok() { "completed" } else { "trapped" }, 1);
        for e in b.engs.iter_mut() {
            let e = e.as_mut();
            for k in 1..32 {
                e.set_x(k, x[k]);
            }
            e.set_pc(w.pc);
            e.set_lr(lr);
            e.set_cycles(0);
            for (a, n) in SPANS {
                e.store_bytes(*a, &pat[..*n as usize]).unwrap();
            }
            for p in &pages {
                e.clear_flag(*p, DIRTY).unwrap();
            }
            let er = e.run();
            st.traces += 1;
            cmp_end(e, s, &er, &sr).map_err(show)?;
            if e.lr() != s.lr {
                return Err(show(format!("{:?}: reservation {:#x} instead of {:#x}", e.ek(), e.lr(), s.lr)));
            }
            for p in &pages {
                let fl = e.flag(*p).unwrap();
                // a store that traps may leave what it touched marked dirty
                let open = if sr.is_err() && x[8] < m && (x[8] / PAGE == *p || (x[8] + 7) / PAGE == *p) { DIRTY } else { 0 };
                if (fl ^ s.mem.flags[*p as usize]) & !open != 0 {
                    return Err(show(format!("{:?}: flags of page {:#x} are {:#x} instead of {:#x}", e.ek(), p, fl, s.mem.flags[*p as usize])));
                }
                let data = e.load_bytes(*p * PAGE, PAGE).unwrap();
                cmp_page(e.ek(), &s.mem, *p, &data).map_err(show)?;
            }
        }
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    crate::scale::large_reservations(r);
    let q = r.quick();
    r.bound("every sequence of up to 4 operations from 39 (32-bit: 28) and, when thorough, of 5 from 23 (17): LR/SC of both widths at three overlapping or distinct addresses, at the end of memory, on an executable page and at the end of the address space, with aliased registers, AMOs, plain accesses, calls that interrupt the run and breakpoints, with and without an earlier reservation, at aligned, misaligned and frame-straddling addresses; all atomic operations over pairs of 38 boundary values, 8 register choices, 5 alignments; every atomic operation at 25 addresses around pages, permissions, frames and the end of memory after 7 earlier accesses, comparing pages and flags; all engines, versions 0-2");
    for (xlen, version) in [(64, 1), (64, 2), (32, 1), (64, 0), (32, 0), (32, 2)] {
        values(r, xlen, version);
        hostile(r, xlen, version);
        sequences(r, xlen, version, 2, false);
        sequences(r, xlen, version, 3, false);
        if version == 1 || !q {
            sequences(r, xlen, version, 4, false);
        }
        if version == 1 && !q {
            sequences(r, xlen, version, 5, true);
        }
    }
}
