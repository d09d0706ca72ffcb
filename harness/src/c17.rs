//! C17: hostile code, registers, program counters, binaries and handler arguments, on machines whose
//! memory lies between inaccessible pages, with every block's canary and layout checked on release.
use crate::asmb::*;
use crate::c01::{Grp, GROUPS};
use crate::c10::{ehsize, phsize, File, Ph};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::guard;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::Bytes;
use std::sync::Arc;

const P: u64 = 4096;
const F: u64 = 1 << 18;
const M: u64 = 2 * F;
const LIMIT: u64 = 64;

fn guarded<T>(f: impl FnOnce() -> T) -> T {
    guard::mapped(true);
    let r = f();
    guard::mapped(false);
    r
}
fn mk(g: &Grp) -> Bench {
    let mut o = Opt::new(g.isa, g.version, M as usize).stop();
    o.max_cycles = LIMIT;
    o.cost = Some(Arc::new(|_| 1));
    guarded(|| Bench::new(g.eks, &o, g.xlen))
}
fn wipe(b: &mut Bench) {
    b.s.mem = SMem::new(M);
    b.s.lr = b.s.m(u64::MAX);
    for e in b.engs.iter_mut() {
        e.reset_memory().unwrap();
    }
    forget(b);
}
fn forget(b: &mut Bench) {
    for e in b.engs.iter_mut() {
        e.fresh_decoder();
    }
}
/// Run everything from `pc` with registers `x`. The model decides what must happen when it stops by
/// itself within a few steps; otherwise the engine only has to come back in the allowed ways.
fn go(b: &mut Bench, pc: u64, x: &[u64; 32], st: &mut Stats, what: &dyn Fn() -> String) -> Result<bool, String> {
    let mut synced = true;
    let s = &mut b.s;
    s.x = *x;
    s.pc = s.m(pc);
    let pc = s.pc;
    s.cycles = 0;
    s.max_cycles = u64::MAX;
    s.running = true;
    s.trap_rd = 0;
    s.exit = 0;
    let s0 = s.steps;
    let sr = s.run(&|_| 1, true, 14);
    for e in b.engs.iter_mut() {
        let e = e.as_mut();
        for k in 1..32 {
            e.set_x(k, x[k]);
        }
        e.set_pc(pc);
        e.set_cycles(0);
        let r = e.run();
        st.traces += 1;
        match &sr {
            Some(sr) => {
                synced &= cmp_end_block(e, s, &r, sr).map_err(|m| format!("{}: {}", what(), m))?;
            }
            None => {
                synced = false;
                // a loop: only the cycle limit (or the block ahead) can end it
                if let Ok(c) = r {
                    return Err(format!("{}: {:?} ended with exit code {} although the program loops", what(), e.ek(), c));
                }
            }
        }
    }
    st.transitions += s.steps - s0;
    st.states += 1;
    Ok(synced)
}
/// Same, without an expectation (the state of model and engines may already differ).
fn come_back(b: &mut Bench, pc: u64, x: &[u64; 32], st: &mut Stats) {
    for e in b.engs.iter_mut() {
        for k in 1..32 {
            e.set_x(k, x[k]);
        }
        e.set_pc(pc);
        e.set_cycles(0);
        let _ = e.run();
        st.traces += 1;
    }
    st.states += 1;
}
fn canaries(b: &mut Bench) -> CaseRes {
    for e in b.engs.iter_mut() {
        if e.mem_size() != M {
            return Err(format!("{:?}: the memory size became {}", e.ek(), e.mem_size()));
        }
    }
    Ok(())
}

fn regs(xlen: u32, k: usize) -> [u64; 32] {
    let m = if xlen == 64 { u64::MAX } else { 0xffff_ffff };
    let mut x = match k {
        0 => bg(xlen),
        1 => [M - 1; 32],
        2 => [m; 32],
        3 => [(m >> 1) + 1; 32],
        4 => [m - 6; 32],
        5 => [0; 32],
        _ => [F - 1; 32],
    };
    if k > 0 {
        for j in 1..32 {
            x[j] = x[j].wrapping_add((j as u64 % 3) << 1) & m;
        }
    }
    x[0] = 0;
    x
}

/// Addresses and lengths around everything that matters.
fn edges(xlen: u32) -> Vec<u64> {
    let m = if xlen == 64 { u64::MAX } else { 0xffff_ffff };
    let mut v = vec![];
    for c in [0u64, P, 3 * P, F, M, 1 << 31, 1 << 32, 1 << 63, 0x7fff_f000] {
        for d in [0u64, 1, 2, 3, 4, 6, 7, 8, 15, 16, 2047, 2048, P, F] {
            v.push(c.wrapping_add(d) & m);
            v.push(c.wrapping_sub(d) & m);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn few_edges() -> Vec<u64> {
    let mut v = vec![];
    for c in [0u64, P, F, M, 1 << 32, 1 << 63] {
        for d in [0u64, 1, 4, 8, P] {
            v.push(c.wrapping_add(d));
            v.push(c.wrapping_sub(d));
        }
    }
    v.sort();
    v.dedup();
    v
}

// ------------------------------------------------------------------ phases
fn parcel_case(g: &Grp, b: &mut Bench, at: usize, h: u32, rk: usize, st: &mut Stats) -> CaseRes {
    // entry at the parcel; what follows (if memory goes on) is a fixed second half
    let pg = 5 + h as u64 % 55 * 2; // a fresh page boundary most of the time
    let a = [M - 2, pg * P - 2, F - 2, M - 4][at];
    let hb = (h as u16).to_le_bytes();
    let code = [hb, [0x73, 0x00], [0x02, 0x90]].concat();
    match at {
        0 => b.put_code(a, &hb),
        1 => {
            b.put_code(a, &hb);
            if b.s.mem.flags[pg as usize] & DIRTY == 0 {
                b.put_data(pg * P, &code[2..]);
            }
        }
        2 => b.put_code(a, &code),
        _ => b.put_code(a, &[hb, hb].concat()),
    }
    if at != 1 || h % 55 == 0 {
        forget(b);
    }
    let x = regs(g.xlen, rk);
    let synced = go(b, a, &x, st, &|| format!("{} parcel {:#06x} at {:#x}, registers {}", g.name, h, a, rk))?;
    let stores = decode(u32::from_le_bytes([code[0], code[1], code[2], code[3]]), b.s.c).map_or(false, |i| matches!(i.op, Op::SB | Op::SH | Op::SW | Op::SD) || i.op as u8 >= Op::LR_W as u8);
    if !synced && stores {
        // memory may differ from here on
        wipe(b);
    }
    Ok(())
}

/// Parcels for sequences: control flow, memory, halves of long instructions, traps.
const TOK: &[u16] = &[
    0x0000, 0x0001, 0x9002, 0x0073, 0x8082, 0xbffd, 0xa011, 0xffff, 0x0003, 0x006f, 0xf06f, 0x0317, 0x0067, 0xe31c, 0x4398, 0x1063, //
    0x8302, 0x9302, 0xa001, 0xc102, 0x100f, 0x0063, 0x202f, 0x0010, 0xdffd, 0x8000,
];
fn seq_case(g: &Grp, b: &mut Bench, i: u64, n: usize, t: u64, odd: u64, rk: usize, st: &mut Stats) -> CaseRes {
    // boundary x how many parcels lie before it x entry offset x parcels
    let mut rad = vec![4u64, n as u64, odd];
    rad.extend(std::iter::repeat(t).take(n));
    let d = digits(i, &rad);
    let bd = [M, 9 * P, F, P][d[0]];
    let before = 2 * (d[1] as u64 + 1);
    let entry = [0u64, 2, 1, 3][d[2]];
    let mut code = vec![];
    for k in 0..n {
        code.extend(TOK[d[3 + k]].to_le_bytes());
    }
    let a = bd - before;
    if bd == M {
        code.truncate(before as usize);
    }
    // the page behind the boundary is executable only at the frame boundary and at the first page
    let ahead = matches!(d[0], 2 | 3);
    wipe(b);
    b.put_data(a, &code);
    b.set_flag(bd / P - 1, EXEC);
    if ahead {
        b.set_flag(bd / P, EXEC);
    }
    let x = regs(g.xlen, rk);
    if entry % 2 == 1 {
        come_back(b, a + entry, &x, st);
        return Ok(());
    }
    go(b, a + entry, &x, st, &|| format!("{} parcels {:02x?} at {:#x}, entered at +{}, registers {}", g.name, code, a, entry, rk)).map(|_| ())
}

const IMMS: &[i32] = &[0, 1, -1, 7, -8, 2047, -2048, 2040];

struct Acc {
    b: Bench,
    /// (operation, immediate, rd, address of the code)
    slots: Vec<(Op, i32, u32, u64)>,
}
fn mk_acc(g: &Grp, code: u64) -> Acc {
    let mut b = mk(g);
    let mut c = Code::new();
    let mut slots = vec![];
    for op in MEMOPS.iter().copied().chain([Op::JALR]) {
        for &imm in IMMS {
            for rd in [5, 8] {
                let f = form(op).0;
                if (matches!(f, Form::Amo | Form::Lr) && imm != 0) || (f == Form::St && rd == 8) {
                    continue;
                }
                let w = enc(op, rd, 8, 6, imm);
                if decode(w, Cfg { xlen: g.xlen, isa: g.isa, version: g.version }).is_none() {
                    continue;
                }
                slots.push((op, imm, rd, code + c.0.len() as u64));
                c.w(w).w(EBREAK);
            }
        }
    }
    b.put_code(code, &c.0);
    Acc { b, slots }
}

fn base_elf(class: u8, kind: u64) -> File {
    let h = (ehsize(class) + 2 * phsize(class)) as u64;
    let ph = |flags, off, vaddr, filesz, memsz| Ph { typ: 1, flags, off, vaddr, filesz, memsz };
    let mut f = match kind {
        0 => File::new(class, vec![ph(5, 0, 0x1_0000, h + 64, h + 64), ph(6, h, 0x1_2000, 100, 0x900)]),
        1 => File::new(class, vec![ph(5, 0x100, M - P + 0x100, 0xf00, 0xf00), ph(4, 0x10, 0x3_f010, 0x1100, 0x1ff0)]),
        _ => File::new(class, vec![ph(5, 0, F - P, h + 64, 2 * P), ph(6, 0, M - 2 * P, 16, 2 * P)]),
    };
    f.entry = match kind {
        0 => 0x1_0000 + h,
        1 => M - 4,
        _ => F - 2,
    };
    f
}
fn elf_bytes(class: u8, kind: u64) -> Vec<u8> {
    let f = base_elf(class, kind);
    let mut v = f.bytes();
    let h = ehsize(class) + 2 * phsize(class);
    // a loop that stores and calls, right behind the headers
    let mut c = Code::new();
    c.w(addi(5, 5, 1)).w(st(2, 2, 5, -8)).w(0x0001).w(jal(0, -10));
    v[h..h + c.0.len()].copy_from_slice(&c.0);
    v
}

fn hook_ops() -> usize {
    17
}
/// One handler-level operation with guest-chosen arguments.
fn host_op(e: &mut dyn Eng, k: usize, a: u64, n: u64) -> Result<(), String> {
    let size = e.mem_size();
    let inb = |l: u64| l == 0 || a.checked_add(l).map_or(false, |x| x <= size);
    let ek = e.ek();
    // the address register of a 32-bit machine
    let a32 = if ek.xlen() == 32 { a & 0xffff_ffff } else { a };
    let inr = |l: u64| a32.checked_add(l).map_or(false, |x| x <= size);
    let (ok, want, name) = match k {
        0 => (e.ld(1, a).is_ok(), inr(1), "load8"),
        1 => (e.ld(2, a).is_ok(), inr(2), "load16"),
        2 => (e.ld(4, a).is_ok(), inr(4), "load32"),
        3 => (e.ld(8, a).is_ok(), inr(8), "load64"),
        4 => (e.st(1, a, n).is_ok(), inr(1), "store8"),
        5 => (e.st(2, a, n).is_ok(), inr(2), "store16"),
        6 => (e.st(4, a, n).is_ok(), inr(4), "store32"),
        7 => (e.st(8, a, n).is_ok(), inr(8), "store64"),
        8 => (e.load_bytes(a, n).is_ok(), inb(n), "load_bytes"),
        9 => (e.store_byte(a, n, 0x77).is_ok(), inb(n), "store_byte"),
        10 => {
            let l = n % 9000;
            (e.store_bytes(a, &vec![1; l as usize]).is_ok(), inb(l), "store_bytes")
        }
        11 => (e.flag(a).is_ok(), a < size / P, "fetch_flag"),
        12 => (e.set_flag(a, 0x80).is_ok(), a < size / P, "set_flag"),
        13 => (e.clear_flag(a, 0x80).is_ok(), a < size / P, "clear_flag"),
        14 => {
            let w = a % P == 0 && n % P == 0 && a.checked_add(n).map_or(false, |x| x <= size);
            (e.init_pages(a, n, 0, None, 0).is_ok(), w, "init_pages")
        }
        15 => {
            let src = Bytes::from(vec![9u8; 5000]);
            let r = e.init_pages(a & !(P - 1), 2 * P, 0, Some(src), n);
            (r.is_ok(), (a & !(P - 1)).checked_add(2 * P).map_or(false, |x| x <= size) && n <= 2 * P, "init_pages with source")
        }
        _ => {
            // fetches: nothing is executable here
            (e.ex16(a).is_ok() || e.ex32(n).is_ok(), false, "execute_load")
        }
    };
    if ok != want {
        return Err(format!("{:?}: {}({:#x}, {:#x}) {} although it must {}", ek, name, a, n, if ok { "succeeded" } else { "failed" }, if want { "succeed" } else { "fail" }));
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    guard::check(true);
    let q = r.quick();
    r.bound(format!("512 KiB machines whose memory, flag and frame arrays lie between inaccessible pages; overflow checks and debug assertions on; every heap block's canary and layout checked at release; cycle limit {}", LIMIT));
    r.bound("all 65536 parcels at the end of memory, before a non-executable page and across a frame boundary x edge register files; all 2- and 3-parcel sequences over the token alphabet at 4 boundaries x entry offsets 0-3; all memory operations and indirect jumps x immediates x edge addresses; all edge program counters; all single-byte changes and truncations of ELF headers; all handler-level memory operations over edge x edge arguments");
    r.assume("a program that the model does not finish in 14 steps only has to come back with an error; so does one entered at an odd program counter, which no instruction can produce; memory contents are compared by C05 and C03, not here");
    for (gi, g) in GROUPS.iter().enumerate() {
        let main = gi == 0 || gi == 3;
        // ---- single parcels: (position, register file)
        let pos: Vec<(usize, usize)> = if !q {
            (0..4).flat_map(|a| (0..7).map(move |k| (a, k))).collect()
        } else if main {
            vec![(0, 2), (1, 2), (1, 3), (1, 0), (2, 1)]
        } else {
            vec![(1, 2)]
        };
        r.phase(&format!("parcels {}", g.name), 65536 * pos.len() as u64, 2048, || mk(g), |b, i, st| {
            let h = (i % 65536) as u32;
            if i % 2048 == 0 {
                wipe(b);
            }
            let (at, rk) = pos[(i / 65536) as usize];
            parcel_case(g, b, at, h, rk, st)
        });
        // ---- sequences
        let all = TOK.len() as u64;
        let plan: Vec<(u32, u64, u64, u64)> = match (q, gi) {
            (true, 0) => vec![(2, all, 4, 2), (3, 16, 2, 1)],
            (true, 3) => vec![(2, all, 4, 1)],
                (true, _) => vec![(2, 16, 4, 1)],
            (false, 0 | 3) => vec![(2, all, 4, 5), (3, all, 4, 3), (4, 16, 2, 1)],
            _ => vec![(2, all, 4, 5), (3, all, 2, 1)],
        };
        for (n, t, odd, rs) in plan {
            let c = t.pow(n) * 4 * odd * n as u64;
            r.phase(&format!("{} parcels {}", n, g.name), c * rs, 256, || mk(g), |b, i, st| {
                st.sample(|| format!("{} {} parcels case {}", g.name, n, i));
                seq_case(g, b, i % c, n as usize, t, odd, [2, 0, 3, 4, 1][(i / c) as usize], st)
            });
        }
        // ---- accesses and indirect jumps with edge addresses
        let ed = edges(g.xlen);
        let code = 2 * P;
        let ns = mk_acc(g, code).slots.len() as u64;
        let n = ns * ed.len() as u64;
        r.phase(&format!("accesses {}", g.name), n, 512, || mk_acc(g, code), |w, i, st| {
            let (op, imm, rd, pc) = w.slots[(i % ns) as usize];
            let v = ed[(i / ns) as usize];
            let mut x = bg(g.xlen);
            x[8] = v;
            go(&mut w.b, pc, &x, st, &|| format!("{} {:?} imm {} rd {} with base {:#x}", g.name, op, imm, rd, v)).map(|_| ())
        });
        // ---- program counters
        r.phase(&format!("entry {}", g.name), ed.len() as u64 * 3, 64, || mk(g), |b, i, st| {
            wipe(b);
            // memory full of nothing, of breakpoints, of half instructions
            let fill = [&[0u8, 0][..], &[0x02, 0x90], &[0x03, 0x33]][(i % 3) as usize];
            for p in [0, P, F - P, F, M - P] {
                b.put_code(p, &fill.repeat(P as usize / 2));
            }
            let pc = ed[(i / 3) as usize];
            let x = regs(g.xlen, 0);
            if pc % 2 == 1 {
                come_back(b, pc, &x, st);
                return Ok(());
            }
            go(b, pc, &x, st, &|| format!("{} entry at {:#x} with fill {:x?}", g.name, pc, fill)).map(|_| ())
        });
        // ---- direct jumps and branches out of the address space
        let far: Vec<(u64, u32)> = {
            let mut v = vec![];
            for a in [0, 2, P, F - 4, M - 4, M - 6] {
                for imm in [-2048, -4096, -4, -2, 2, 4, 2046, 4094, -1048576, 1048574, -262144, 262144, 524288] {
                    v.push((a, jal(1, imm)));
                    if (-4096..4096).contains(&imm) {
                        v.push((a, br(0, 0, 0, imm)));
                        v.push((a, br(5, 0, 0, imm)));
                        v.push((a, br(1, 0, 0, imm)));
                    }
                    if (-2048..2048).contains(&imm) {
                        v.push((a, c_j(imm) as u32));
                        v.push((a, jalr(1, 0, imm)));
                    }
                }
            }
            v
        };
        r.phase(&format!("jumps {}", g.name), far.len() as u64 * 3, 32, || mk(g), |b, i, st| {
            wipe(b);
            let (a, w) = far[(i / 3) as usize];
            let fill: &[u8] = [&[0u8, 0][..], &[0x02, 0x90], &[0x01, 0x00]][(i % 3) as usize];
            let mut c = Code::new();
            c.w(w).w(C_EBREAK as u32);
            if a + c.0.len() as u64 > M {
                c.0.truncate((M - a) as usize);
            }
            for p in [0, P, F - P, F, M - P] {
                b.put_code(p, &fill.repeat(P as usize / 2));
            }
            b.put_code(a, &c.0);
            forget(b);
            if i % 3 == 2 {
                let x = regs(g.xlen, 0);
                come_back(b, a, &x, st);
                return Ok(());
            }
            go(b, a, &regs(g.xlen, 0), st, &|| format!("{} {:#x} at {:#x}, fill {:x?}", g.name, w, a, fill)).map(|_| ())
        });
        // ---- binaries
        let class = if g.xlen == 64 { 2 } else { 1 };
        let hl = (ehsize(class) + 2 * phsize(class)) as u64;
        // every value of every header byte; in the quick tier every bit flip and the ends of the range
        let nv = if q { 12 } else { 256 };
        r.phase(&format!("elf bytes {}", g.name), 3 * hl * nv, 128, || mk(g), |b, i, st| {
            let kind = i / (hl * nv);
            let mut v = elf_bytes(class, kind);
            let at = (i / nv % hl) as usize;
            v[at] = if q {
                match i % nv {
                    k @ 0..=7 => v[at] ^ 1 << k,
                    k => [0, 0xff, v[at].wrapping_add(1), v[at].wrapping_sub(1)][k as usize - 8],
                }
            } else {
                i as u8
            };
            elf_case(g, b, v, st)
        });
        r.phase(&format!("elf cut {}", g.name), 3 * 0x1400, 128, || mk(g), |b, i, st| {
            let mut v = elf_bytes(class, i % 3);
            v.truncate((i / 3) as usize);
            elf_case(g, b, v, st)
        });
        let fe = few_edges();
        let ne = fe.len() as u64;
        let words: Vec<(usize, usize)> = (0..hl as usize).step_by(4).flat_map(|o| [(o, 4), (o, 8), (o, 2)]).filter(|(o, n)| o + n <= hl as usize).collect();
        let nw = words.len() as u64;
        r.phase(&format!("elf words {}", g.name), 3 * nw * ne, 128, || mk(g), |b, i, st| {
            let mut v = elf_bytes(class, i % 3);
            let (o, n) = words[(i / 3 % nw) as usize];
            v[o..o + n].copy_from_slice(&fe[(i / 3 / nw) as usize].to_le_bytes()[..n]);
            elf_case(g, b, v, st)
        });
        // ---- what a handler does with guest-chosen numbers
        let full = edges(64);
        let nf = full.len() as u64;
        let ks = hook_ops() as u64;
        let fl = if q { fe.clone() } else { full.clone() };
        let nl = fl.len() as u64;
        r.phase(&format!("handlers {}", g.name), nf * nl * ks, 4096, || mk(g), |b, i, st| {
            let (k, a, n) = ((i % ks) as usize, full[(i / ks % nf) as usize], fl[(i / ks / nf) as usize]);
            if i % 64 == 0 {
                for e in b.engs.iter_mut() {
                    e.reset_memory().unwrap();
                }
            }
            for e in b.engs.iter_mut() {
                host_op(e.as_mut(), k, a, n).map_err(|m| format!("{} {}", g.name, m))?;
                st.traces += 1;
            }
            st.states += 1;
            canaries(b)
        });
        // ---- long blocks: straight-line code up to a trap, of every length around the trace sizes
        r.phase(&format!("blocks {}", g.name), 70 * 6, 8, || mk(g), |b, i, st| {
            wipe(b);
            let n = i / 6;
            let mut c = Code::new();
            for k in 0..n {
                if (i + k) % 2 == 0 {
                    c.w(c_addi(5, 1) as u32);
                } else {
                    c.w(addi(6, 6, 1));
                }
            }
            let end: &[u8] = [&[0u8, 0][..], &[0x02, 0x90], &[0x67, 0x80, 0, 0], &[], &[0x03, 0x33], &[0x6f, 0, 0, 0]][(i % 6) as usize];
            c.0.extend(end);
            let a = M - c.0.len() as u64;
            b.put_code(M - P, &[0x13u8, 0, 0, 0].repeat(P as usize / 4));
            if !c.0.is_empty() {
                b.put_code(a, &c.0);
            }
            let x = regs(g.xlen, 0);
            come_back(b, a, &x, st);
            // again, and from the middle
            come_back(b, a, &x, st);
            come_back(b, a.wrapping_add(2), &x, st);
            canaries(b)
        });
    }
    r.stats.bump("blocks placed between inaccessible pages", guard::MAPS.load(std::sync::atomic::Ordering::Relaxed));
    r.stats.bump("heap blocks verified at release", guard::CHECKED.load(std::sync::atomic::Ordering::Relaxed));
}

fn elf_case(g: &Grp, b: &mut Bench, v: Vec<u8>, st: &mut Stats) -> CaseRes {
    let v = Bytes::from(v);
    let args = [Bytes::from(&b"a"[..])];
    for e in b.engs.iter_mut() {
        e.reset(LIMIT).map_err(|x| format!("{} {:?}: reset: {:?}", g.name, e.ek(), x))?;
        let r = e.load_program(&v, &args);
        st.traces += 1;
        if r.is_ok() {
            e.fresh_decoder();
            let _ = e.run();
            st.bump("loaded and run", 1);
        }
    }
    let _ = ckb_vm::elf::parse_elf::<u32>(&v, g.version);
    let _ = ckb_vm::elf::parse_elf::<u64>(&v, g.version);
    st.states += 1;
    canaries(b)
}
