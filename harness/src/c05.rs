//! C05: guest loads, stores, atomics and fetches at every kind of boundary, over access histories.
use crate::asmb::*;
use crate::c01::{Grp, GROUPS};
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::spec::*;

const P: u64 = 4096;
const F: u64 = 1 << 18;
const M: u64 = 2 * F;

#[derive(Clone, Copy, Debug)]
enum A {
    Acc(Op, u64),
    Protect(u64),
    Unprotect(u64),
    HostStore(u64, u64),
    HostLoad(u64, u64),
    /// the host forgets that the page was written
    Clean(u64),
    /// the memory is reset and the program put back
    Reset,
    /// bulk writes and reads a system call makes for the program
    Bulk(u64, u64),
    Fill(u64, u64),
    Read(u64, u64),
}

struct Lay {
    name: &'static str,
    code: u64,
    exec: &'static [u64],
}
const LAYS: &[Lay] = &[
    Lay { name: "code in first frame", code: P, exec: &[10, 70, 71] },
    Lay { name: "code in last frame, X|W at the frame boundary", code: 100 * P, exec: &[10, 63] },
    Lay { name: "W|X at the frame boundary, last page X", code: 2 * P, exec: &[10, 64, 127] },
];
const OPS: &[Op] = &[
    Op::LB, Op::LH, Op::LW, Op::LBU, Op::LHU, Op::LWU, Op::LD, Op::SB, Op::SH, Op::SW, Op::SD, Op::LR_W, Op::LR_D, Op::SC_W, Op::SC_D, Op::AMOADD_W, Op::AMOSWAP_D,
];

struct W {
    b: Bench,
    lay: &'static Lay,
    /// (operation, address) of installed code
    slots: Vec<(Op, u64)>,
    image: Vec<u8>,
}

fn mk(g: &Grp, lay: &'static Lay) -> W {
    mk_size(g, lay, M, g.eks)
}
fn mk_size(g: &Grp, lay: &'static Lay, mem: u64, eks: &[EK]) -> W {
    let opt = Opt::new(g.isa, g.version, mem as usize).stop();
    let b = Bench::new(eks, &opt, g.xlen);
    let mut c = Code::new();
    let mut slots = vec![];
    for op in memops(Cfg { xlen: g.xlen, isa: g.isa, version: g.version }) {
        let w = enc(op, 5, 8, if matches!(op, Op::LR_W | Op::LR_D) { 0 } else { 6 }, 0);
        slots.push((op, lay.code + c.0.len() as u64));
        c.w(w).w(EBREAK);
    }
    W { b, lay, slots, image: c.0 }
}

fn start(w: &mut W) {
    w.b.s.mem = SMem::new(w.b.opt.mem as u64);
    w.b.s.lr = w.b.s.m(u64::MAX);
    for e in w.b.engs.iter_mut() {
        e.reset_memory().unwrap();
    }
    let (code, img) = (w.lay.code, w.image.clone());
    w.b.put_code(code, &img);
    for &p in w.lay.exec {
        w.b.set_flag(p, EXEC);
    }
}

fn history(g: &Grp, w: &mut W, h: &[A], st: &mut Stats) -> CaseRes {
    start(w);
    let mem = w.b.opt.mem as u64;
    let mut loose = vec![0u8; (mem / P) as usize];
    let s0 = w.b.s.steps;
    let mut pages: Vec<u64> = vec![0, 9, 10, 11, 63, 64, 127, w.lay.code / P];
    for (k, a) in h.iter().enumerate() {
        if let A::Reset = a {
            start(w);
            loose.fill(0);
        }
        let b = &mut w.b;
        match *a {
            A::Reset => {}
            A::Protect(p) => b.set_flag(p, EXEC),
            A::Unprotect(p) => b.clear_flag(p, EXEC),
            A::Clean(p) => b.clear_flag(p, DIRTY),
            A::HostLoad(ad, n) => {
                for e in b.engs.iter_mut() {
                    let v = e.ld(n, ad).map_err(|x| format!("{:?}", x))?;
                    let want = b.s.mem.rd(ad, n).unwrap();
                    if v != b.s.m(want) {
                        return Err(format!("{} {} {:?}: {:?}: host load returned {:#x} instead of {:#x}", g.name, w.lay.name, h, e.ek(), v, want));
                    }
                }
            }
            A::HostStore(ad, n) => {
                let want = b.s.mem.wr(ad, n, 0x7172_7374);
                for e in b.engs.iter_mut() {
                    let r = e.st(n, ad, 0x7172_7374);
                    if r.is_ok() != want.is_ok() {
                        return Err(format!("{} {} {:?}: {:?}: host store returned {:?} instead of {:?}", g.name, w.lay.name, h, e.ek(), r, want));
                    }
                }
            }
            A::Bulk(ad, n) | A::Fill(ad, n) | A::Read(ad, n) => {
                let fill = matches!(a, A::Fill(..));
                let d: Vec<u8> = (0..if n > mem { 0 } else { n }).map(|j| if fill { 0x5c } else { (j as u8).wrapping_mul(31) ^ k as u8 | 1 }).collect();
                if matches!(a, A::Read(..)) {
                    for e in b.engs.iter_mut() {
                        let r = e.load_bytes(ad, n);
                        let ok = match &r {
                            Ok(v) => (n == 0 || b.s.mem.in_bounds(ad, n)) && v.len() as u64 == n && (0..n).all(|j| v[j as usize] == b.s.mem.rd8(ad + j)),
                            Err(x) => n > 0 && !b.s.mem.in_bounds(ad, n) && kind(x) == Kind::Oob,
                        };
                        if !ok {
                            return Err(format!("{} {} step {} of {:x?}: {:?}: bulk read returned {:?}", g.name, w.lay.name, k, h, e.ek(), r.map(|v| v.len())));
                        }
                    }
                    continue;
                }
                let want = if n > mem { Err(trap(Kind::Oob)) } else { b.s.mem.wr_bytes(ad, &d) };
                if want.is_err() && ad < mem {
                    for p in ad / P..=ad.saturating_add(n).min(mem - 1) / P {
                        loose[p as usize] = DIRTY;
                    }
                }
                if ad < mem && n > 0 {
                    pages.extend(ad / P..=(ad.saturating_add(n) - 1).min(mem - 1) / P);
                }
                for e in b.engs.iter_mut() {
                    let r = if fill { e.store_byte(ad, n, 0x5c) } else { e.store_bytes(ad, &d) };
                    let ok = match (&r, &want) {
                        (Ok(()), Ok(())) => true,
                        (Err(x), Err(t)) => t.0.contains(&kind(x)),
                        _ => false,
                    };
                    if !ok {
                        return Err(format!("{} {} step {} of {:x?}: {:?}: bulk write returned {:?} instead of {:?}", g.name, w.lay.name, k, h, e.ek(), r, want));
                    }
                }
            }
            A::Acc(op, ad) => {
                let pc = match w.slots.iter().find(|s| s.0 == op) {
                    Some(s) => s.1,
                    None => return Ok(()),
                };
                let s = &mut b.s;
                let mut x = bg(g.xlen);
                x[8] = s.m(ad);
                x[6] = s.m(0x1122_3344_5566_7788 + k as u64);
                s.x = x;
                s.pc = pc;
                let sr = s.run(&|_| 1, true, 4).unwrap();
                if sr.is_err() && x[8] < mem {
                    for p in x[8] / P..=(x[8] + 7).min(mem - 1) / P {
                        loose[p as usize] = DIRTY;
                    }
                }
                if x[8] < mem {
                    pages.push(x[8] / P);
                }
                for e in b.engs.iter_mut() {
                    let e = e.as_mut();
                    for r in 1..32 {
                        e.set_x(r, x[r]);
                    }
                    e.set_pc(pc);
                    let r = e.run();
                    cmp_end(e, s, &r, &sr).map_err(|m| format!("{} {} access {} of {:x?}: {}", g.name, w.lay.name, k, h, m))?;
                }
            }
        }
    }
    pages.sort();
    pages.dedup();
    let b = &mut w.b;
    let (s, engs) = (&b.s, &mut b.engs);
    for e in engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        let f = |m: String| format!("{} {} after {:x?}: {}", g.name, w.lay.name, h, m);
        for p in 0..mem / P {
            let fl = e.flag(p).unwrap();
            if (fl ^ s.mem.flags[p as usize]) & !loose[p as usize] != 0 {
                return Err(f(format!("{:?}: flags of page {} = {:#x} instead of {:#x}", ek, p, fl, s.mem.flags[p as usize])));
            }
        }
        for &p in &pages {
            let d = e.load_bytes(p * P, P).unwrap();
            cmp_page(ek, &s.mem, p, &d).map_err(f)?;
        }
    }
    count(st, &b.s, s0, b.engs.len() as u64);
    Ok(())
}

// ------------------------------------------------------------------ fetch
/// Instruction bytes laid across a boundary; control enters at `pc`.
fn fetch_case(g: &Grp, w: &mut W, i: u64, st: &mut Stats) -> CaseRes {
    // boundary x offset of entry x instruction mix x permissions of both sides
    let bounds = [11 * P, F, M, P];
    let bd = bounds[(i % 4) as usize];
    let back = [2u64, 4, 6, 8, 10][(i / 4 % 5) as usize];
    let mix = i / 20 % 16; // four 2- or 4-byte instructions
    let perm = i / 320 % 4; // bit0: left exec, bit1: right exec
    let warm = i / 1280 % 2; // right-hand page written by the host before
    let s = &mut w.b.s;
    s.mem = SMem::new(M);
    for e in w.b.engs.iter_mut() {
        e.reset_memory().unwrap();
        e.fresh_decoder();
    }
    let pc = bd - back;
    let mut c = Code::new();
    for k in 0..4 {
        if mix >> k & 1 == 1 {
            c.w(addi(5, 5, 1 << k));
        } else {
            c.w(c_addi(6, 1 + k as i32) as u32);
        }
    }
    c.w(EBREAK);
    let mut bytes = c.0;
    if bd == M {
        bytes.truncate(back as usize);
    }
    if warm == 1 && bd < M {
        w.b.put_data(bd + 100, &[1, 2, 3]);
    }
    w.b.put_data(pc, &bytes);
    if perm & 1 == 1 {
        w.b.set_flag(bd / P - 1, EXEC);
    }
    if perm & 2 == 2 && bd < M {
        w.b.set_flag(bd / P, EXEC);
    }
    let s = &mut w.b.s;
    let x = bg(g.xlen);
    s.x = x;
    s.pc = pc;
    let s0 = s.steps;
    let sr = s.run(&|_| 1, true, 16).unwrap();
    for e in w.b.engs.iter_mut() {
        let e = e.as_mut();
        for r in 1..32 {
            e.set_x(r, x[r]);
        }
        e.set_pc(pc);
        let r = e.run();
        cmp_end_block(e, s, &r, &sr).map_err(|m| format!("{} fetch {} bytes before {:#x}, mix {:#x} perm {} : {}", g.name, back, bd, mix, perm, m))?;
    }
    count(st, s, s0, w.b.engs.len() as u64);
    st.sample(|| format!("{} fetch from {:#x} over boundary {:#x}: {:?}", g.name, pc, bd, sr));
    Ok(())
}

pub fn run(r: &mut Run) {
    crate::scale::large(r, crate::scale::Large::Guest);
    crate::scale::ranges(r, &[EK::I64Flat, EK::I64Sparse, EK::AsmDyn]);
    let q = r.quick();
    let big = u64::MAX;
    let mut addrs = vec![
        0, 10 * P - 1, 10 * P - 4, 10 * P - 8, 10 * P, 11 * P - 8, 11 * P - 7, 11 * P - 2, 11 * P - 1, 11 * P, F - 8, F - 7, F - 4, F - 2, F - 1, F, F + 0x123, M - 8, M - 7, M - 4, M - 3, M - 2, M - 1, M, M + 1, M + F, 0x8000_0000, 0xffff_ffff,
    ];
    let high = [big, big - 7, big - 3, 1 << 63, 1 << 32, (1 << 32) + F];
    addrs.extend(high);
    addrs.extend([P, 100 * P, 2 * P]); // code pages
    let groups: Vec<&'static Grp> = GROUPS.iter().filter(|g| g.isa != 1 || g.xlen == 64).collect();
    r.bound(format!("512 KiB memory, {} access kinds x {} addresses (page, frame, permission and memory boundaries, wrapped and huge addresses) in {} layouts; all histories of 2 accesses, and of 3 over a reduced set with host protect/unprotect/load/store/reset steps; bulk reads, writes and fills of 0 to 4 pages between guest accesses; after a trap the host resumes at the next access", OPS.len(), addrs.len(), LAYS.len()));
    r.bound("4 MiB (the default): for every page, and 96 MiB: for pages 2^k, stores, loads, permission changes and cleaning of it interleaved with accesses to every page whose number differs in one bit");
    r.assume("a trapping store may leave pages it touched marked dirty; which of two simultaneous reasons (out of bounds / permission) is reported is open");
    for g in groups {
        let ad: Vec<u64> = if g.xlen == 32 { addrs.iter().copied().filter(|a| *a <= 0xffff_ffff).collect() } else { addrs.clone() };
        let mut alpha: Vec<A> = vec![];
        for &op in OPS {
            if decode(enc(op, 5, 8, 6, 0), Cfg { xlen: g.xlen, isa: g.isa, version: g.version }).is_none() {
                continue;
            }
            for &a in &ad {
                alpha.push(A::Acc(op, a));
            }
        }
        // reduced alphabet for longer histories
        let mut red: Vec<A> = vec![];
        let rops: &[Op] = if g.xlen == 64 { &[Op::LD, Op::SD, Op::SB, Op::AMOADD_W] } else { &[Op::LW, Op::SW, Op::SB, Op::AMOADD_W] };
        for &op in rops {
            for a in [0, 10 * P - 4, 10 * P, 11 * P - 4, 11 * P, F - 4, F - 1, F, M - 8, M - 4, M, w_code(0), 0xffff_f000] {
                if a == 0 || !(op == Op::AMOADD_W && g.isa & ISA_A == 0) {
                    red.push(A::Acc(op, a));
                }
            }
        }
        red.extend([A::Reset, A::Clean(9), A::Clean(63), A::Protect(11), A::Unprotect(10), A::Protect(64), A::Protect(0), A::HostStore(F, 4), A::HostStore(10 * P, 4), A::HostLoad(F - 2, 4), A::HostLoad(M - 4, 4)]);
        // bulk accesses, before and after a guest access
        let mut bulk: Vec<A> = vec![];
        for a in [0, 7 * P, 9 * P, 9 * P + 1, 10 * P - 1, 10 * P, 11 * P - 1, 11 * P, 61 * P, 62 * P + 8, F - 1, F, 65 * P - 1, 65 * P, 69 * P, 72 * P, M - 3 * P, M - P, M - 1, M, big - 1] {
            for n in [0, 1, 2, P - 1, P, P + 1, 2 * P, 2 * P + 1, 3 * P, 4 * P - 1] {
                bulk.extend([A::Bulk(a, n), A::Fill(a, n), A::Read(a, n)]);
            }
            // sizes whose end wraps around
            for n in [1 << 63, u64::MAX - a, 0u64.wrapping_sub(a), 8u64.wrapping_sub(a), P.wrapping_sub(a), u64::MAX] {
                if n > M {
                    bulk.extend([A::Fill(a, n), A::Read(a, n)]);
                }
            }
        }
        let mut first = red.clone();
        first.extend([A::Bulk(9 * P, 100), A::Fill(F, P), A::Read(F - 1, 2), A::Read(M - 1, 1)]);
        let rest: Vec<A> = memops(Cfg { xlen: g.xlen, isa: g.isa, version: g.version }).into_iter().filter(|op| !OPS.contains(op)).flat_map(|op| ad.iter().map(move |a| A::Acc(op, *a))).collect();
        if !rest.is_empty() {
            for lay in LAYS {
                let (n, nf) = (rest.len() as u64, red.len() as u64);
                r.phase(&format!("every other atomic after one access {} / {}", g.name, lay.name), n * nf, 64, || mk(g, lay), |w, i, st| {
                    let h = [red[(i / n) as usize], rest[(i % n) as usize]];
                    st.sample(|| format!("{} {}: {:x?}", g.name, lay.name, h));
                    history(g, w, &h, st)
                });
            }
        }
        for (li, lay) in LAYS.iter().enumerate() {
            if li > 0 && (g.version < 2 || g.xlen == 32) && q {
                continue;
            }
            let n = alpha.len() as u64;
            let al = alpha.clone();
            r.phase(&format!("2 accesses {} / {}", g.name, lay.name), n * n, 256, || mk(g, lay), |w, i, st| {
                let h = [al[(i / n) as usize], al[(i % n) as usize]];
                st.sample(|| format!("{} {}: {:x?}", g.name, lay.name, h));
                history(g, w, &h, st)
            });
            let (nb, nf) = (bulk.len() as u64, first.len() as u64);
            let (bu, fi) = (bulk.clone(), first.clone());
            if li == 0 || !q {
                r.phase(&format!("bulk accesses {} / {}", g.name, lay.name), nb * nf, 64, || mk(g, lay), |w, i, st| {
                    let h = [fi[(i % nf) as usize], bu[(i / nf) as usize], fi[(i % nf) as usize]];
                    st.sample(|| format!("{} {}: {:x?}", g.name, lay.name, h));
                    history(g, w, &h, st)
                });
            }
            let n = red.len() as u64;
            let al = red.clone();
            let depth = if q || li > 0 { 3 } else { 4 };
            if q && li > 0 {
                continue;
            }
            r.phase(&format!("{} accesses {} / {}", depth, g.name, lay.name), n.pow(depth), 256, || mk(g, lay), |w, i, st| {
                let mut h = vec![];
                let mut k = i;
                for _ in 0..depth {
                    h.push(al[(k % n) as usize]);
                    k /= n;
                }
                h.reverse();
                st.sample(|| format!("{} {}: {:x?}", g.name, lay.name, h));
                history(g, w, &h, st)
            });
        }
        if g.version == 2 {
            for (mem, eks) in [(4 << 20, g.eks), (96 << 20, if g.xlen == 64 { &REP64[..] } else { &[EK::I32Flat, EK::I32Sparse][..] })] {
                // in a small memory every page, in a large one those around powers of two
                let ps: Vec<u64> = (0..mem / P).filter(|p| (mem < 16 << 20 && (!q || g.xlen == 64 || p % 5 == 0)) || (0..20).any(|k| p.abs_diff(1 << k) < if q { 1 } else { 2 })).filter(|p| *p != 1).collect();
                r.phase(&format!("every page of {} MiB {}", mem >> 20, g.name), ps.len() as u64, 4, || mk_size(g, &LAYS[0], mem, eks), |w, i, st| {
                    let p = ps[i as usize];
                    let (ld, sd, amo) = if g.xlen == 64 { (Op::LD, Op::SD, Op::AMOADD_D) } else { (Op::LW, Op::SW, Op::AMOADD_W) };
                    let amo = if g.isa & ISA_A == 0 { sd } else { amo };
                    let others: Vec<u64> = (0..63).map(|k| p ^ (1 << k)).take_while(|o| o ^ p < 2 * mem / P).filter(|o| *o != 1 && ![10, 70, 71].contains(o)).collect();
                    let mut h = vec![A::Acc(sd, p * P + 8), A::Protect(p)];
                    h.extend(others.iter().map(|o| A::Acc(ld, o * P + 8)));
                    h.push(A::Acc(sd, p * P + 16));
                    h.extend(others.iter().map(|o| A::Acc(sd, o * P + 24)));
                    h.extend([A::Acc(ld, p * P + 16), A::Unprotect(p), A::Acc(amo, p * P + 16), A::Clean(p)]);
                    h.extend(others.iter().map(|o| A::Acc(sd, o * P + 32)));
                    h.extend([A::Acc(ld, p * P + P - 4), A::Clean(p), A::Acc(sd, p * P + P - 4)]);
                    st.sample(|| format!("{}: {:x?}", g.name, h));
                    history(g, w, &h, st)
                });
            }
        }
        r.phase(&format!("fetch {}", g.name), 2560, 32, || mk(g, &LAYS[0]), |w, i, st| fetch_case(g, w, i, st));
    }
}
fn w_code(l: usize) -> u64 {
    LAYS[l].code
}
