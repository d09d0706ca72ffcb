//! Shared phases about size: many blocks, many iterations, long ranges of memory.
use crate::asmb::*;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::Bytes;

const BIG: u64 = 4 << 20;
const BASE: u64 = 0x2000;
const END: u64 = 0x3f_0000;

fn go_to(c: &mut Code, a: u64) {
    let lo = (a & 0xfff) as i32;
    let (hi, lo) = if lo >= 0x800 { ((a >> 12) + 1, lo - 0x1000) } else { (a >> 12, lo) };
    c.w(lui(7, hi as u32)).w(jalr(0, 7, lo));
}
/// Block k of a chain: its own constants, mixed in an order-dependent way, then on to the next one.
fn block(k: u64, salt: u64, len: u64, next: u64) -> Vec<u8> {
    let mut c = Code::new();
    c.w(addi(20, 20, ((k * 37 + salt * 11) % 2039) as i32 + 1));
    for j in 0..len {
        if (j + k) % 3 == 0 {
            c.w(c_addi(23, ((j + k + salt) % 15) as i32 + 1) as u32);
        } else {
            c.w(addi(23, 23, ((j * 5 + k + salt) % 2000) as i32 + 1));
        }
    }
    c.w(enc(Op::SLLI, 22, 21, 0, 2)).w(add(21, 21, 22)).w(add(21, 21, 20));
    go_to(&mut c, next);
    c.0
}

struct W {
    b: Bench,
}
/// Chains of up to thousands of blocks, spread over the memory in several ways, visited several times
/// over; with `reset`, other blocks take their places afterwards.
pub fn blocks(r: &mut Run, xlen: u32, isa: u8, version: u32, reset: bool) {
    let q = r.quick();
    let ns: Vec<u64> = if q && reset { vec![11, 13, 25, 64, 200, 1000] } else if q { vec![3, 11, 13, 24, 41, 64, 65, 100, 257, 1000, 4000] } else { (2..=130).chain([200, 255, 256, 257, 500, 511, 512, 513, 1000, 2000, 4000, 8000]).collect() };
    // distance of neighbours (0: next to each other) and straight-line instructions in each block
    const STRIDE: &[u64] = &[0, 0x202, 0x400, 0x1004, 0x1ffc, 0x8000, 0x8004, 0x4_0000, 0x4_0002];
    const LEN: &[u64] = &[0, 12, 13, 40];
    let rx = [ns.len() as u64, STRIDE.len() as u64, LEN.len() as u64, 2];
    let ks: Vec<EK> = (if xlen == 32 { ALL32 } else { ALL64 }).to_vec();
    r.bound("chains of 3 to 4000 blocks (thorough: every length to 130 and up to 8000), 9 distances from each other to 256 KiB, of 5 to 45 instructions, gone through three times in two orders");
    r.phase(
        &format!("chains of blocks rv{} v{}{}", xlen, version, if reset { ", replaced after a reset" } else { "" }),
        rx.iter().product(),
        2,
        || W { b: Bench::new(&ks, &Opt::new(isa, version, BIG as usize), xlen) },
        |w, i, st| {
            let d = digits(i, &rx);
            let (n, len) = (ns[d[0]], LEN[d[2]]);
            let size = (len * 4 + 28 + 15) / 16 * 16;
            let stride = if STRIDE[d[1]] == 0 { size } else { STRIDE[d[1]] };
            let show = format!("{} blocks of {} instructions {:#x} apart, order {}", n, len + 6, stride, d[3]);
            if stride < size || n > (END - BASE - 0x1000) / stride {
                return Ok(());
            }
            let b = &mut w.b;
            let b0 = b.s.steps;
            for e in b.engs.iter_mut() {
                e.reset(u64::MAX).map_err(|m| format!("{:?}", m))?;
                e.fresh_decoder();
            }
            for round in 0..if reset { 3u64 } else { 1 } {
                if round > 0 {
                    for e in b.engs.iter_mut() {
                        e.reset(u64::MAX).map_err(|m| format!("{:?}", m))?;
                    }
                }
                let mem = BIG;
                let c = b.s.c;
                let steps = b.s.steps;
                b.s = Spec::new(c, mem);
                b.s.steps = steps;
                b.s.max_cycles = u64::MAX;
                // later rounds put every block one place further, or other constants in the same place
                let shift = if round == 1 { 2 } else { 0 };
                let at = |k: u64| BASE + k * stride + shift;
                let after = |k: u64| if d[3] == 0 { k + 1 } else { (k + n - 1) % n };
                let mut tail = Code::new();
                let tail_at = BASE - 0x100;
                tail.w(addi(6, 6, -1)).w(br(0, 6, 0, 12));
                go_to(&mut tail, at(0));
                tail.w(addi(10, 0, 7)).exit();
                let mut img: Vec<(u64, Vec<u8>)> = vec![(tail_at, tail.0)];
                for k in 0..n {
                    let nx = if d[3] == 0 { k + 1 == n } else { k == 1 || n == 1 };
                    img.push((at(k), block(k, round, len, if nx { tail_at } else { at(after(k)) })));
                }
                // one image for all: far fewer calls
                if stride <= 0x2000 {
                    let end = img.iter().map(|(a, c)| a + c.len() as u64).max().unwrap();
                    let mut all = vec![0u8; (end - tail_at) as usize];
                    for (a, c) in &img {
                        all[(a - tail_at) as usize..][..c.len()].copy_from_slice(c);
                    }
                    b.put_code(tail_at, &all);
                } else {
                    for (a, c) in &img {
                        b.put_code(*a, c);
                    }
                }
                // cold, and again with everything decoded
                for warm in 0..2 {
                    let s = &mut b.s;
                    s.x = [0; 32];
                    s.x[6] = 3;
                    s.pc = at(0);
                    s.cycles = 0;
                    let sr = s.run(&|i| cost_of(i.op), false, 10_000_000).unwrap();
                    if !matches!(sr, Ok(7)) {
                        return Err(format!("{}: the model ended with {:?}", show, sr));
                    }
                    for e in b.engs.iter_mut() {
                        let e = e.as_mut();
                        for k in 1..32 {
                            e.set_x(k, 0);
                        }
                        e.set_x(6, 3);
                        e.set_pc(at(0));
                        e.set_cycles(0);
                        let r = e.run();
                        st.traces += 1;
                        cmp_end(e, &b.s, &r, &sr).map_err(|m| format!("{}, round {}, run {}: {}", show, round, warm, m))?;
                        if isa & 2 == 0 && e.cycles() != b.s.cycles {
                            return Err(format!("{}, round {}, run {}: {:?}: {} cycles instead of {}", show, round, warm, e.ek(), e.cycles(), b.s.cycles));
                        }
                    }
                }
            }
            let steps = b.s.steps - b0;
            st.states += steps + 1;
            st.transitions += steps;
            st.sample(|| show);
            Ok(())
        },
    );
}

/// Loops that run an instruction or two many times.
pub fn loops(r: &mut Run, xlen: u32, isa: u8, version: u32) {
    let q = r.quick();
    let toks: Vec<crate::c03::Tok> = crate::c03::tokens(xlen, isa & 4 != 0).into_iter().filter(|t| !t.0.contains("+8") && !t.0.contains("+6") && !t.0.contains("-4") && !t.0.contains("-8") && !t.0.contains("jalr") && !t.0.contains("c.j")).collect();
    let nt = toks.len() as u64;
    let counts: Vec<u64> = if q { vec![255, 257, 5000] } else { vec![127, 128, 129, 255, 256, 257, 1023, 1025, 4097, 65535, 65537, 300_000] };
    let rx = [nt, nt, counts.len() as u64, 2];
    r.bound("loops of two instructions out of the C03 alphabet run up to 5000 (thorough: 300000) times, after 0 or 14 other instructions");
    r.phase(
        &format!("long loops rv{} v{}", xlen, version),
        rx.iter().product(),
        8,
        || {
            let mut o = Opt::new(isa, version, 1 << 20);
            o.ecall = EcallModel::Rich;
            Arena::new(Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &o, xlen), 0x1_0000, 0x9_0000)
        },
        |w, i, st| {
            let d = digits(i, &rx);
            let mut n = counts[d[2]];
            let (a, c) = (&toks[d[0]], &toks[d[1]]);
            if n > 300 && (d[0] + d[1]) % 5 != 0 && q {
                n = 300;
            }
            let mut k = Code::new();
            k.w(a.1).w(c.1);
            for j in 0..14 * d[3] {
                k.w(addi(24, 24, j as i32 + 1));
            }
            k.w(addi(26, 26, -1));
            let off = k.0.len() as i32;
            k.w(br(1, 26, 0, -off)).w(addi(10, 0, 3)).exit();
            let show = || format!("{}; {} after {}, {} times", a.0, c.0, 14 * d[3], n);
            let pc = w.install(&[k.0])[0];
            let b = &mut w.b;
            let mut x = [0u64; 32];
            x[5] = 3;
            x[6] = 0x7fff_fff0;
            x[8] = 0xa_0800;
            x[9] = 2;
            x[10] = 0xa_0900;
            x[11] = 0xa_0a00;
            x[17] = 64;
            x[26] = n;
            let s = &mut b.s;
            s.x = x;
            s.pc = pc;
            s.lr = s.m(u64::MAX);
            s.cycles = 0;
            s.max_cycles = 1 << 40;
            s.log.clear();
            let s0 = s.steps;
            let m0: Vec<u8> = (0..32u8).map(|k| k.wrapping_mul(29) ^ 0x33).collect();
            s.mem.poke(0xa_0800, &m0);
            s.mem.poke(0xa_0900, &m0);
            s.mem.poke(0xa_0a00, &m0);
            let sr = match s.run(&|i| cost_of(i.op), false, 60 * n + 1000) {
                Some(r) => r,
                None => {
                    st.bump("endless", 1);
                    return Ok(());
                }
            };
            for e in b.engs.iter_mut() {
                let e = e.as_mut();
                for k in 1..32 {
                    e.set_x(k, x[k]);
                }
                e.set_pc(pc);
                e.set_lr(u64::MAX);
                e.set_cycles(0);
                e.set_max(1 << 40);
                for a in [0xa_0800, 0xa_0900, 0xa_0a00] {
                    e.store_bytes(a, &m0).unwrap();
                }
                b.opt.log.lock().unwrap().clear();
                let r = e.run();
                st.traces += 1;
                if !cmp_end_block(e, s, &r, &sr).map_err(|m| format!("{}: {}", show(), m))? {
                    continue;
                }
                if isa & 2 == 0 && sr.is_ok() && e.cycles() != s.cycles {
                    return Err(format!("{}: {:?}: {} cycles instead of {}", show(), e.ek(), e.cycles(), s.cycles));
                }
                for a in [0xa_0800, 0xa_0900, 0xa_0a00] {
                    let m = e.load_bytes(a, 32).unwrap();
                    if let Some(k) = (0..32).find(|k| m[*k as usize] != s.mem.rd8(a + k)) {
                        return Err(format!("{}: {:?}: data byte {:#x} differs", show(), e.ek(), a + k));
                    }
                }
                if b.opt.log.lock().unwrap()[..] != s.log[..] {
                    return Err(format!("{}: {:?}: other system calls", show(), e.ek()));
                }
            }
            let steps = s.steps - s0;
            st.states += steps + 1;
            st.transitions += steps;
            Ok(())
        },
    );
}

/// Host writes, fills, reads and initialisations over any number of pages of 4 MiB, with a page that
/// forbids them (executable, or frozen) at every kind of place.
pub fn ranges(r: &mut Run, eks: &[EK]) {
    let q = r.quick();
    let ns: Vec<u64> = if q { (1..=40).chain([63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 400, 511, 512, 513, 700, 900]).collect() } else { (1..=900).collect() };
    let rx = [ns.len() as u64, 6, 6, 4];
    let eks: Vec<EK> = eks.to_vec();
    r.bound("4 MiB: writes, fills, reads and initialisations of 1 to 900 pages, aligned, not, and with single bytes of the pages at the ends, with no or one forbidding page at the start, a sixteenth, the middle, before the end or the end of the range; everything compared afterwards");
    let data: Vec<u8> = (0..BIG).map(|k| ((k >> 12) * 7 + (k % 253)) as u8 | 1).collect();
    r.phase(
        "long ranges",
        rx.iter().product(),
        2,
        || -> Vec<Box<dyn Eng>> { eks.iter().map(|k| make(*k, &Opt::new(7, 2, BIG as usize))).collect() },
        |w, i, st| {
            let d = digits(i, &rx);
            let (n, what, odd) = (ns[d[0]], d[2], d[3] as u64);
            if n == 1 && odd == 3 {
                return Ok(());
            }
            // whole pages, parts of pages, one byte of the last page, one byte of the first and last page
            let (p0, off) = (20u64, [0, 77, 0, PAGE - 1][odd as usize]);
            let a = p0 * PAGE + off;
            let len = [n * PAGE, n * PAGE - 100, (n - 1) * PAGE + 1, (n - 1) * PAGE + 1][odd as usize] - [0, 0, 0, PAGE - 1][odd as usize];
            // the page that is in the way
            let stop = match d[1] {
                0 => None,
                1 => Some(0),
                2 => Some(n / 16),
                3 => Some(n / 2),
                4 => Some(n.saturating_sub(2)),
                _ => Some(n - 1),
            };
            if what >= 4 && odd > 0 || stop.is_some() && what == 2 {
                return Ok(());
            }
            let show = || format!("{} {:#x} bytes at {:#x}, {:?}", ["writing", "filling", "reading", "clearing through a fill", "initialising", "initialising with data"][what], len, a, stop);
            for e in w.iter_mut() {
                let ek = e.ek();
                let er = |m: String| format!("{}: {:?}: {}", show(), ek, m);
                let fe = |x: ckb_vm::Error| er(format!("{:?}", x));
                e.reset_memory().map_err(fe)?;
                // something is there already
                let mut want = vec![0u8; BIG as usize];
                for p in [0, p0 - 1, p0, p0 + n / 2, p0 + n - 1, p0 + n, BIG / PAGE - 1] {
                    e.st(4, p * PAGE + 8, 0x5152_5354 ^ p).map_err(fe)?;
                    want[(p * PAGE + 8) as usize..][..4].copy_from_slice(&(0x5152_5354 ^ p as u32).to_le_bytes());
                }
                for p in 0..BIG / PAGE {
                    e.clear_flag(p, DIRTY).map_err(fe)?;
                }
                if let Some(k) = stop {
                    e.set_flag(p0 + k, if what >= 4 { FREEZED } else { EXEC }).map_err(fe)?;
                }
                let src = &data[(a - 3 * PAGE) as usize..][..len as usize];
                let res = match what {
                    0 => e.store_bytes(a, src),
                    1 => e.store_byte(a, len, 0xd7),
                    2 => e.load_bytes(a, len).map(|v| if v[..] != want[a as usize..(a + len) as usize] { w_bad() } else { Ok(()) }).and_then(|x| x),
                    3 => e.store_byte(a, len, 0),
                    4 => e.init_pages(a, len, 0, None, 0),
                    _ => e.init_pages(a, len, 0, Some(Bytes::copy_from_slice(&src[..(len - PAGE / 2) as usize])), 9),
                };
                let ok = stop.is_none();
                if res.is_ok() != ok {
                    return Err(er(format!("returned {:?}", res)));
                }
                if ok {
                    let t = &mut want[a as usize..][..len as usize];
                    match what {
                        0 => t.copy_from_slice(src),
                        1 => t.fill(0xd7),
                        3 | 4 => t.fill(0),
                        5 => {
                            t.fill(0);
                            t[9..9 + (len - PAGE / 2) as usize].copy_from_slice(&src[..(len - PAGE / 2) as usize]);
                        }
                        _ => {}
                    }
                }
                let got = e.load_bytes(0, BIG).map_err(fe)?;
                if got[..] != want[..] {
                    let k = (0..BIG as usize).find(|k| got[*k] != want[*k]).unwrap();
                    return Err(er(format!("byte {:#x} is {:#x} instead of {:#x}", k, got[k], want[k])));
                }
                for p in 0..BIG / PAGE {
                    let f = e.flag(p).map_err(fe)?;
                    let inside = p >= p0 && p < p0 + n;
                    let base = if stop.map(|k| p0 + k) == Some(p) { if what >= 4 { FREEZED } else { EXEC } } else { 0 };
                    let good = if what == 2 || !inside {
                        f == base
                    } else if ok {
                        f == DIRTY
                    } else {
                        f & !DIRTY == base
                    };
                    if !good {
                        return Err(er(format!("page {} has flags {:#x}", p, f)));
                    }
                }
                st.traces += 1;
            }
            st.states += 3;
            st.transitions += 2;
            Ok(())
        },
    );
}
fn w_bad() -> Result<(), ckb_vm::Error> {
    Err(ckb_vm::Error::Unexpected("other bytes".into()))
}

/// Program counters that agree with the start of code already decoded in their low bits only.
pub fn aliases(r: &mut Run, xlen: u32, isa: u8, version: u32) {
    const A: u64 = 0x4_0200;
    const E: u64 = 0x8_1000;
    const D: u64 = 0xc_0300;
    let mut ks: Vec<u64> = (16..64).map(|k| 1u64 << k).collect();
    ks.extend([3 << 32, 0xffff_ffff << 32, 0x7fff_ffff << 32, (1 << 32) + (1 << 20), (1 << 33) | 1 << 31, 1 << 32 | 1 << 63, 0u64.wrapping_sub(1 << 20), 0u64.wrapping_sub(1 << 31)]);
    if xlen == 32 {
        ks.retain(|k| *k < 1 << 32);
    }
    const LEN: &[u64] = &[0, 1, 13, 14, 15, 16, 20, 40];
    let rx = [LEN.len() as u64, 7, 3, 2];
    r.bound("jumps to the start of a block decoded before, with one of 2^16 to 2^63 or a sum of some added to its address, over 6 forms of jump and by the host, blocks of 2 to 42 instructions run 0 to 2 times before");
    r.phase(
        &format!("aliased program counters rv{} v{}", xlen, version),
        rx.iter().product(),
        1,
        || Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &Opt::new(isa, version, 1 << 20), xlen),
        |b, i, st| {
            let d = digits(i, &rx);
            let (len, form, warm) = (LEN[d[0]], d[1], d[2]);
            let b0 = b.s.steps;
            for e in b.engs.iter_mut() {
                e.reset(u64::MAX).map_err(|m| format!("{:?}", m))?;
                e.fresh_decoder();
            }
            let c = b.s.c;
            b.s = Spec::new(c, 1 << 20);
            b.s.steps = b0;
            b.s.max_cycles = u64::MAX;
            let mut a = Code::new();
            a.w(addi(20, 20, 1));
            for j in 0..len {
                a.w(addi(23, 23, j as i32 + 1));
            }
            a.w(jalr(0, 5, 0));
            let mut e = Code::new();
            e.w(addi(10, 20, 0)).exit();
            let mut dr = Code::new();
            match form {
                0 | 6 => dr.w(jalr(0, 6, 0)),
                1 => dr.w(0x8002 | 6 << 7),
                2 => dr.w(jalr(1, 6, 0)),
                3 => dr.w(jalr(1, 7, 0x7fe)),
                4 => dr.w(0x9002 | 6 << 7),
                _ => dr.w(addi(1, 6, 0)).w(0x8082),
            };
            b.put_code(A, &a.0);
            b.put_code(E, &e.0);
            b.put_code(D, &dr.0);
            let show = format!("address {:#x}, {} instructions, jump {}, after {} runs", A, len + 2, form, warm);
            let mut tos = vec![(A, 0); warm];
            for k in &ks {
                tos.push((A.wrapping_add(*k), *k));
                if warm > 0 {
                    tos.push((A, 0));
                }
            }
            tos.push((A, 0));
            // the second form gets there with the last bit set
            let low = if d[3] == 1 { 1 } else { 0 };
            for (to, k) in &tos {
                let to = b.s.m(*to);
                let mut x = [0u64; 32];
                x[5] = E;
                x[6] = if form == 6 { to } else { to | low };
                x[7] = b.s.m(to.wrapping_sub(0x7fe)) | if form == 6 { 0 } else { low };
                let s = &mut b.s;
                s.x = x;
                s.pc = if form == 6 { to } else { D };
                s.cycles = 0;
                let sr = s.run(&|i| cost_of(i.op), false, 1000).unwrap();
                // versions 0 and 1 take the block of the low 32 bits, on purpose
                let quirk = version < 2 && *k != 0 && *k as u32 == 0 && warm > 0;
                let mut first: Option<(EK, Result<i8, Kind>, [u64; 32], u64, u64)> = None;
                for e in b.engs.iter_mut() {
                    let e = e.as_mut();
                    for j in 1..32 {
                        e.set_x(j, x[j]);
                    }
                    e.set_pc(if form == 6 { to } else { D });
                    e.set_cycles(0);
                    let r = e.run();
                    st.traces += 1;
                    if quirk && block_engine(e.ek()) {
                        if e.ek() == EK::AsmTiny {
                            continue;
                        }
                        let got = (e.ek(), r.map_err(|m| kind(&m)), e.x(), e.pc(), e.cycles());
                        match &first {
                            None => first = Some(got),
                            Some(f) if (f.1, f.2, f.3, f.4) == (got.1, got.2, got.3, got.4) => {}
                            Some(f) => return Err(format!("{} plus {:#x}: {:?} ended {:?} at {:#x} after {} cycles, {:?} {:?} at {:#x} after {}", show, k, f.0, f.1, f.3, f.4, got.0, got.1, got.3, got.4)),
                        }
                        continue;
                    }
                    cmp_end(e, &b.s, &r, &sr).map_err(|m| format!("{} plus {:#x}: {}", show, k, m))?;
                    if isa & 2 == 0 && sr.is_ok() && e.cycles() != b.s.cycles {
                        return Err(format!("{} plus {:#x}: {:?}: {} cycles instead of {}", show, k, e.ek(), e.cycles(), b.s.cycles));
                    }
                }
            }
            let steps = b.s.steps - b0;
            st.states += steps + 1;
            st.transitions += steps;
            st.sample(|| show);
            Ok(())
        },
    );
}

/// A long instruction whose upper half is `c.addi rd, imm`: jumping two bytes into it is fine.
fn nested(rd_in: u32, imm: i32, rd: u32, odd: u32) -> u32 {
    // the low two bits of the upper half are part of rs1
    (c_addi(rd_in, imm) as u32) << 16 | odd << 15 | rd << 7 | 0x13
}

/// Code entered at several places that run into one another, also in the middle of long instructions.
pub fn overlaps(r: &mut Run, xlen: u32, isa: u8, version: u32) {
    let q = r.quick();
    const ENTRY: &[u64] = &[0, 2, 4, 6, 8, 10];
    let tails: Vec<u64> = if q { vec![0, 8, 9, 10, 11, 12, 13, 14, 15, 16, 27, 28, 29, 30, 31, 44] } else { (0..64).collect() };
    let rx = [16, tails.len() as u64, 3];
    let ne = ENTRY.len() as u64;
    r.bound("code starting with every pattern of four long (with a compressed instruction as their upper half) and compressed instructions and going on for up to 44 (thorough: 63) more, entered at two places out of 6, one after the other and back, twice");
    r.phase(
        &format!("overlapping entries rv{} v{}", xlen, version),
        rx.iter().product(),
        4,
        || Arena::new(Bench::new(if xlen == 32 { ALL32 } else { ALL64 }, &Opt::new(isa, version, 1 << 20), xlen), 0x1_0000, 0xf_0000),
        |w, i, st| {
            let d = digits(i, &rx);
            let mut c = Code::new();
            let put = |c: &mut Code, k: u32, long: bool| {
                let (rd, im) = (18 + k % 4, (k * 5 % 28) as i32 + 1);
                if long {
                    c.w(nested(rd, im, 22 + k % 4, k % 2));
                } else {
                    c.w(c_addi(rd, im) as u32);
                }
            };
            for k in 0..4 {
                put(&mut c, k, d[0] >> k & 1 == 1);
            }
            for k in 0..tails[d[1]] as u32 {
                put(&mut c, k + 4, match d[2] { 0 => false, 1 => true, _ => k % 2 == 0 });
            }
            c.w(addi(10, 18, 0)).exit();
            for o in 0..ne * ne {
                let (a, z) = (ENTRY[(o % ne) as usize], ENTRY[(o / ne) as usize]);
                let at = w.install(&[c.0.clone()])[0];
                let b = &mut w.b;
                for (n, e0) in [a, z, a, z].into_iter().enumerate() {
                    let mut x = [0u64; 32];
                    for k in 18..28 {
                        x[k] = k as u64 * 100;
                    }
                    // what the long instructions read
                    for k in [2, 3, 10, 11] {
                        x[k] = k as u64 * 1000;
                    }
                    let s = &mut b.s;
                    let s0 = s.steps;
                    s.x = x;
                    s.pc = at + e0;
                    s.cycles = 0;
                    s.max_cycles = u64::MAX;
                    let sr = match s.run(&|i| cost_of(i.op), false, 1000) {
                        Some(r) => r,
                        None => return Err("harness: endless".into()),
                    };
                    st.transitions += s.steps - s0;
                    st.states += s.steps - s0 + 1;
                    for e in b.engs.iter_mut() {
                        let e = e.as_mut();
                        for k in 1..32 {
                            e.set_x(k, x[k]);
                        }
                        e.set_pc(at + e0);
                        e.set_cycles(0);
                        let r = e.run();
                        st.traces += 1;
                        let show = || format!("pattern {:#06b}, {} more of kind {}, entered at +{} and +{}, run {}", d[0], tails[d[1]], d[2], a, z, n);
                        cmp_end(e, s, &r, &sr).map_err(|m| format!("{}: {}", show(), m))?;
                        if isa & 2 == 0 && sr.is_ok() && e.cycles() != s.cycles {
                            return Err(format!("{}: {:?}: {} cycles instead of {}", show(), e.ek(), e.cycles(), s.cycles));
                        }
                    }
                }
            }
            st.sample(|| format!("pattern {:#06b}, {} more of kind {}, every pair of entries", d[0], tails[d[1]], d[2]));
            Ok(())
        },
    );
}

pub enum Large {
    Host,
    Guest,
    Snap1,
    Snap2,
}
/// Memories of sizes far from the default one.
pub fn large(r: &mut Run, what: Large) {
    const K: u64 = 1 << 10;
    let mut sizes: Vec<u64> = vec![256 * K, 512 * K, 768 * K, (4 << 20) + 256 * K, 16 << 20, 32 << 20, 64 << 20, (64 << 20) + 256 * K, 128 << 20, 256 << 20, (256 << 20) + 256 * K, 512 << 20, (1 << 30) + 256 * K, (2 << 30) - 256 * K, (2 << 30) + 256 * K, (4 << 30) - 256 * K, (4 << 30) + 256 * K];
    if !r.quick() {
        sizes.extend([(3u64 << 30) + 256 * K, (6 << 30) + 512 * K, (8 << 30) + 256 * K]);
    }
    let eks: &[EK] = match what {
        Large::Host => &[EK::I64Flat, EK::I64Sparse, EK::I32Flat, EK::I32Sparse, EK::AsmSimple],
        Large::Guest => &[EK::I64Flat, EK::T64Sparse, EK::AsmSimple, EK::AsmDyn, EK::AsmStep, EK::T32Flat, EK::I32Sparse],
        _ => &[EK::I64Sparse, EK::AsmSimple, EK::I64Flat],
    };
    let ne = eks.len() as u64;
    r.bound("memories of 256 KiB to over 4 GiB (thorough: 8 GiB): every power of two from 4 KiB and the end of memory, and the places around them");
    r.phase(
        match what {
            Large::Host => "large memories, host",
            Large::Guest => "large memories, guest",
            Large::Snap1 => "large memories, version 1 snapshots",
            Large::Snap2 => "large memories, version 2 snapshots",
        },
        sizes.len() as u64 * ne,
        1,
        || (),
        |_, i, st| {
            let (size, ek) = (sizes[(i / ne) as usize], eks[(i % ne) as usize]);
            let w = ek.xlen();
            if w == 32 && size > 1 << 32 {
                return Ok(());
            }
            if Vec::<u8>::new().try_reserve_exact(size as usize).is_err() {
                st.bump("sizes this machine has no address space for", 1);
                return Ok(());
            }
            let mut e = make(ek, &Opt::new(7, 2, size as usize));
            let e = e.as_mut();
            let show = format!("{:?} with {:#x} bytes", ek, size);
            let er = |m: String| format!("{}: {}", show, m);
            let fe = |a: u64, x: ckb_vm::Error| format!("{}: at {:#x}: {:?}", show, a, x);
            if e.mem_size() != size {
                return Err(er(format!("reports {:#x} bytes", e.mem_size())));
            }
            // one page around every power of two, and the last ones
            let mut pages: Vec<u64> = (12..40).flat_map(|k| [(1u64 << k) / PAGE, (1u64 << k) / PAGE - 1, (1u64 << k) / PAGE + 1]).collect();
            pages.extend((1..5).map(|k| size / PAGE - k));
            pages.extend([size / PAGE / 2 + 7, size / PAGE / 3, (size / PAGE).saturating_sub(63), (size / PAGE).saturating_sub(64), (size / PAGE).saturating_sub(65)]);
            pages.retain(|p| *p >= 4 && *p < size / PAGE);
            pages.sort();
            pages.dedup();
            let width = if w == 64 { 8 } else { 4 };
            let val = |p: u64, k: u64| {
                let v = (p << 8 | k).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
                if w == 64 { v } else { v & 0xffff_ffff }
            };
            const AT: [u64; 3] = [0, 0x7f8, 0xff8];
            match what {
                Large::Guest => {
                    let mut c = Code::new();
                    c.w(enc(if w == 64 { Op::SD } else { Op::SW }, 0, 8, 6, 0)).w(enc(if w == 64 { Op::LD } else { Op::LW }, 7, 8, 0, 0)).w(addi(10, 0, 9)).exit();
                    e.init_pages(PAGE, PAGE, EXEC, Some(Bytes::from(c.0.clone())), 0).map_err(|x| fe(PAGE, x))?;
                    for round in 0..2 {
                        for p in &pages {
                            for (k, o) in AT.iter().enumerate() {
                                let a = p * PAGE + o;
                                e.set_x(6, val(*p, k as u64));
                                e.set_x(7, 0);
                                e.set_x(8, a);
                                e.set_pc(PAGE);
                                let got = e.run();
                                st.traces += 1;
                                st.transitions += 6;
                                if !matches!(got, Ok(9)) || e.x()[7] != val(*p, k as u64) {
                                    return Err(er(format!("storing {:#x} at {:#x} and loading it: {:?}, {:#x}", val(*p, k as u64), a, got, e.x()[7])));
                                }
                            }
                        }
                        // nothing else changed: the same code with the loads only is in the host phase
                        if round == 0 {
                            for p in &pages {
                                for (k, o) in AT.iter().enumerate() {
                                    let a = p * PAGE + o;
                                    let v = e.ld(width, a).map_err(|x| fe(a, x))?;
                                    if v != val(*p, k as u64) {
                                        return Err(er(format!("{:#x} at {:#x} instead of {:#x}", v, a, val(*p, k as u64))));
                                    }
                                }
                            }
                        }
                    }
                    // out of bounds by a little and by a lot
                    for a in [size - width + 1, size - 1, size, size + 1, size + PAGE, 2 * size, size + (1 << 32), size + (1 << 28), size | 1 << 60, u64::MAX - 7, u64::MAX] {
                        let a = if w == 64 { a } else { a & 0xffff_ffff };
                        if a < size && a + width <= size {
                            continue;
                        }
                        e.set_x(8, a);
                        e.set_pc(PAGE);
                        let got = e.run();
                        st.traces += 1;
                        if !matches!(&got, Err(x) if kind(x) == Kind::Oob) {
                            return Err(er(format!("storing at {:#x}: {:?}", a, got)));
                        }
                    }
                    // code on every page
                    for round in 0..2 {
                        for (k, p) in pages.iter().enumerate() {
                            let a = p * PAGE + (k as u64 % 5) * 400;
                            if round == 0 {
                                let mut c = Code::new();
                                c.w(addi(10, 0, k as i32 + 1)).exit();
                                e.store_bytes(a, &c.0).map_err(|x| fe(a, x))?;
                                e.set_pc(a);
                                let got = e.run();
                                if !matches!(&got, Err(x) if kind(x) == Kind::Perm) {
                                    return Err(er(format!("running code at {:#x} on a page that is not executable: {:?}", a, got)));
                                }
                                e.set_flag(*p, EXEC).map_err(|x| fe(a, x))?;
                            }
                            e.set_pc(a);
                            let got = e.run();
                            st.traces += 1;
                            if !matches!(got, Ok(x) if x as u8 == (k + 1) as u8) {
                                return Err(er(format!("running code at {:#x}: {:?} instead of {}", a, got, k + 1)));
                            }
                        }
                    }
                    for p in &pages {
                        e.set_x(8, p * PAGE + 8);
                        e.set_pc(PAGE);
                        let got = e.run();
                        st.traces += 1;
                        if !matches!(&got, Err(x) if kind(x) == Kind::Perm) {
                            return Err(er(format!("storing at {:#x}, on an executable page: {:?}", p * PAGE + 8, got)));
                        }
                    }
                }
                _ => {
                    for p in &pages {
                        for (k, o) in AT.iter().enumerate() {
                            let a = p * PAGE + o;
                            e.st(width, a, val(*p, k as u64)).map_err(|x| fe(a, x))?;
                        }
                        if p % 3 == 0 {
                            e.set_flag(*p, EXEC).map_err(|x| fe(*p * PAGE, x))?;
                        }
                    }
                    let check = |e: &mut dyn Eng, dirty: bool| -> CaseRes {
                        for p in &pages {
                            let b = e.load_bytes(p * PAGE, PAGE).map_err(|x| fe(p * PAGE, x))?;
                            for (k, o) in AT.iter().enumerate() {
                                let a = p * PAGE + o;
                                let v = val(*p, k as u64);
                                let got = e.ld(width, a).map_err(|x| fe(a, x))?;
                                if got != v || b[*o as usize..][..width as usize] != v.to_le_bytes()[..width as usize] {
                                    return Err(er(format!("{:#x} at {:#x} instead of {:#x}", got, a, v)));
                                }
                            }
                            if b.iter().filter(|x| **x != 0).count() as u64 > 3 * width {
                                return Err(er(format!("something else on page {:#x}", p)));
                            }
                        }
                        for p in 0..size / PAGE {
                            let f = e.flag(p).map_err(|x| fe(p * PAGE, x))?;
                            let want = match pages.binary_search(&p) {
                                Ok(_) => DIRTY | if p % 3 == 0 { EXEC } else { 0 },
                                Err(_) => 0,
                            };
                            if (f ^ want) & !(if dirty { 0 } else { DIRTY }) != 0 {
                                return Err(er(format!("page {:#x} has flags {:#x} instead of {:#x}", p, f, want)));
                            }
                        }
                        Ok(())
                    };
                    check(e, true)?;
                    st.traces += 1;
                    st.transitions += pages.len() as u64 * 6;
                    match what {
                        Large::Host => {
                            // ranges across each of these places, and past the end
                            let d = vec![0x5au8; 3 * PAGE as usize];
                            for p in &pages {
                                for q in [p - 1, *p, p + 1] {
                                    if q < size / PAGE {
                                        e.clear_flag(q, EXEC).map_err(|x| fe(q * PAGE, x))?;
                                    }
                                }
                                let a = p * PAGE - 100;
                                let n = 300.min(size - a);
                                e.store_bytes(a, &d[..n as usize]).map_err(|x| fe(a, x))?;
                                e.store_byte(a + 50, 100, *p as u8).map_err(|x| fe(a, x))?;
                                let b = e.load_bytes(a, n).map_err(|x| fe(a, x))?;
                                for k in 0..n {
                                    let v = if k >= 50 && k < 150 { *p as u8 } else { 0x5a };
                                    if b[k as usize] != v {
                                        return Err(er(format!("byte {:#x} is {:#x} instead of {:#x}", a + k, b[k as usize], v)));
                                    }
                                }
                                st.transitions += 3;
                            }
                            for a in [size - 2 * PAGE, size - 100, size - 1, size, size + PAGE, size + (1 << 32), 2 * size, u64::MAX - 100] {
                                let n = size.saturating_sub(a) + 1;
                                let d = &d[..n as usize];
                                let bad = |r: &Result<(), ckb_vm::Error>| !matches!(r, Err(x) if kind(x) == Kind::Oob);
                                let rs = [e.store_bytes(a, d), e.store_byte(a, n, 1), e.load_bytes(a, n).map(|_| ())];
                                for (k, x) in rs.iter().enumerate() {
                                    if bad(x) {
                                        return Err(er(format!("operation {} on {:#x} bytes at {:#x}: {:?}", k, n, a, x)));
                                    }
                                }
                                if a >= size && a % PAGE == 0 {
                                    let rs = [e.set_flag(a / PAGE, 1), e.clear_flag(a / PAGE, 1), e.flag(a / PAGE).map(|_| ()), e.init_pages(a, PAGE, 0, None, 0)];
                                    for (k, x) in rs.iter().enumerate() {
                                        if bad(x) {
                                            return Err(er(format!("page operation {} at {:#x}: {:?}", k, a, x)));
                                        }
                                    }
                                }
                                st.transitions += 7;
                            }
                        }
                        Large::Snap1 => {
                            let s = e.snap1().map_err(|x| fe(0, x))?;
                            for ek in eks {
                                let mut t = make(*ek, &Opt::new(7, 2, size as usize));
                                t.resume1(&s).map_err(|x| fe(0, x))?;
                                check(t.as_mut(), false)?;
                                st.traces += 1;
                            }
                        }
                        _ => {
                            let s = e.snap2(&Ctx2::new(Ds::default())).map_err(|x| fe(0, x))?;
                            for ek in eks {
                                let mut t = make(*ek, &Opt::new(7, 2, size as usize));
                                t.resume2(&mut Ctx2::new(Ds::default()), &s).map_err(|x| fe(0, x))?;
                                check(t.as_mut(), false)?;
                                st.traces += 1;
                            }
                        }
                    }
                }
            }
            st.states += pages.len() as u64;
            st.sample(|| show);
            Ok(())
        },
    );
}

/// Programs placed in memories of sizes far from the default one.
pub fn large_load(r: &mut Run, args: bool) {
    use crate::c10::{File, Ph};
    const K: u64 = 1 << 10;
    let sizes: &[u64] = &[256 * K, 1 << 20, (4 << 20) + 256 * K, 16 << 20, 64 << 20, (64 << 20) + 256 * K, (128 << 20) - 256 * K, 256 << 20, (256 << 20) + 256 * K, 512 << 20, (1 << 30) + 256 * K, (2 << 30) + 256 * K, (4 << 30) - 256 * K, (4 << 30) + 256 * K, (6 << 30) + 512 * K];
    let eks: &[EK] = &[EK::I64Flat, EK::T64Sparse, EK::AsmSimple, EK::AsmDyn, EK::I32Flat, EK::T32Sparse];
    let ne = eks.len() as u64;
    let rx = [sizes.len() as u64, ne, 3, if args { 4 } else { 3 }];
    r.bound("memories of 256 KiB to 6 GiB: a code and a data segment at and around every power of two and at the end of memory, up to 300 arguments");
    r.phase("large memories", rx.iter().product(), 2, || (), |_, i, st| {
        let d = digits(i, &rx);
        let (size, ek, version) = (sizes[d[0]], eks[d[1]], d[2] as u32);
        let w = ek.xlen();
        if w == 32 && size > 1 << 32 {
            return Ok(());
        }
        if Vec::<u8>::new().try_reserve_exact(size as usize).is_err() {
            st.bump("sizes this machine has no address space for", 1);
            return Ok(());
        }
        let list: Vec<Bytes> = if args { (0..[0usize, 1, 3, 300][d[3]]).map(|k| Bytes::from(vec![b'a' + k as u8 % 26; 3 + k % 9])).collect() } else { vec![] };
        // the stack is the last quarter; a segment may lie there
        let mut ats: Vec<u64> = (13..40).flat_map(|k| [1u64 << k, (1u64 << k) - PAGE]).chain([size / 2 + 3 * PAGE, size - 8 * PAGE, size / 4 * 3 - 4 * PAGE, size / 4 * 3 - 2 * PAGE]).collect();
        if args {
            ats = vec![PAGE * 16];
        }
        ats.retain(|a| *a >= 2 * PAGE && *a + 6 * PAGE <= size);
        for at in ats {
            // code, then data two pages further
            let mut c = Code::new();
            let k = (at >> 12) as i32 & 0x7f;
            c.w(auipc(8, 2)).w(enc(Op::LW, 5, 8, 0, 4)).w(addi(10, 5, k)).exit();
            let len = c.0.len() as u64;
            let far = if d[3] == 1 && !args { 1 } else { 0 };
            let mut f = File::new(if w == 32 { 1 } else { 2 }, vec![Ph { typ: 1, flags: 5, off: 0x1000, vaddr: at, filesz: len + far * PAGE, memsz: len + far * PAGE }, Ph { typ: 1, flags: if d[3] == 2 { 4 } else { 6 }, off: 0x3000, vaddr: at + 2 * PAGE, filesz: 16, memsz: 16 + PAGE }]);
            f.entry = at;
            let mut img = f.bytes();
            img.resize(0x3100, 0);
            img[0x1000..][..len as usize].copy_from_slice(&c.0);
            img[0x3000..][..16].copy_from_slice(&[7, 0, 0, 0, 1, 0, 0, 0, 9, 0, 0, 0, 8, 0, 0, 0]);
            let img = Bytes::from(img);
            let show = || format!("{:?} v{} with {:#x} bytes, program at {:#x}, {} arguments", ek, version, size, at, list.len());
            let mut s = Spec::new(Cfg { xlen: w, isa: 0, version }, size);
            let want = s.load_program(&img, &list);
            let mut e = make(ek, &Opt::new(0, version, size as usize));
            let e = e.as_mut();
            let got = e.load_program(&img, &list);
            st.traces += 1;
            st.states += 1;
            if want.is_ok() != got.is_ok() {
                return Err(format!("{}: {:?} instead of {:?}", show(), got, want));
            }
            if want.is_err() {
                st.bump("refused", 1);
                continue;
            }
            if e.pc() != s.pc || e.x()[2] != s.x[2] {
                return Err(format!("{}: pc {:#x}, sp {:#x} instead of {:#x}, {:#x}", show(), e.pc(), e.x()[2], s.pc, s.x[2]));
            }
            let top = size / PAGE;
            let used: Vec<u64> = [at / PAGE - 1, at / PAGE, at / PAGE + 1, at / PAGE + 2, at / PAGE + 3, at / PAGE + 4].into_iter().chain(top - 4..top).collect();
            // a few at every distance, all of them are in other phases
            for p in &used {
                let b = e.load_bytes(p * PAGE, PAGE).map_err(|x| format!("{}: {:?}", show(), x))?;
                cmp_page(ek, &s.mem, *p, &b).map_err(|x| format!("{}: {}", show(), x))?;
            }
            let mut near = used;
            near.extend((0..33).flat_map(|k| [1u64 << k, (at / PAGE) ^ 1 << k, (top - 1) ^ 1 << k]));
            for p in near {
                if p < top {
                    let f = e.flag(p).map_err(|x| format!("{}: {:?}", show(), x))?;
                    if f != s.mem.flags[p as usize] {
                        return Err(format!("{}: page {:#x} has flags {:#x} instead of {:#x}", show(), p, f, s.mem.flags[p as usize]));
                    }
                }
            }
            // versions 0 and 1 fetch with 32 bits of the address here and there
            if at < 1 << 31 {
                let sr = s.run(&|i| cost_of(i.op), false, 100).ok_or("harness: endless")?;
                let r = e.run();
                st.transitions += 6;
                cmp_end(e, &s, &r, &sr).map_err(|m| format!("{}: {}", show(), m))?;
            }
        }
        st.sample(|| format!("{:?} v{} with {:#x} bytes", ek, version, size));
        Ok(())
    });
}

/// Reservations at addresses that agree in all but one bit.
pub fn large_reservations(r: &mut Run) {
    const K: u64 = 1 << 10;
    let sizes: &[u64] = &[256 * K, (4 << 20) + 256 * K, (64 << 20) + 256 * K, (512 << 20) + 256 * K, (4 << 30) + 256 * K];
    let eks: Vec<EK> = ALL64.iter().chain(ALL32).copied().collect();
    let ne = eks.len() as u64;
    r.bound("memories of up to 4 GiB + 256 KiB: load-reserved and store-conditional (both widths) at two addresses that differ in any one bit");
    r.phase("large memories", sizes.len() as u64 * ne * 2, 1, || (), |_, i, st| {
        let (size, ek, wide) = (sizes[(i / ne / 2) as usize], eks[(i / 2 % ne) as usize], i % 2 == 1);
        let w = ek.xlen();
        if w == 32 && (size > 1 << 32 || wide) {
            return Ok(());
        }
        if Vec::<u8>::new().try_reserve_exact(size as usize).is_err() {
            st.bump("sizes this machine has no address space for", 1);
            return Ok(());
        }
        let mut e = make(ek, &Opt::new(4, 2, size as usize));
        let e = e.as_mut();
        let (lr, sc) = if wide { (Op::LR_D, Op::SC_D) } else { (Op::LR_W, Op::SC_W) };
        let mut c = Code::new();
        c.w(enc(lr, 5, 8, 0, 0)).w(enc(sc, 6, 9, 7, 0)).w(addi(10, 6, 0)).exit();
        e.init_pages(PAGE, PAGE, EXEC, Some(Bytes::from(c.0.clone())), 0).map_err(|x| format!("{:?}", x))?;
        let base = 0x5008u64;
        for k in 3..33 {
            let other = base ^ 1 << k;
            if other + 8 > size || other / PAGE == 1 {
                continue;
            }
            for (a, b) in [(base, base), (base, other), (other, base), (other, other)] {
                let n = if wide { 8 } else { 4 };
                e.st(n, a, 11).map_err(|x| format!("{:?}", x))?;
                e.st(n, b, 12).map_err(|x| format!("{:?}", x))?;
                e.set_x(7, 77);
                e.set_x(8, a);
                e.set_x(9, b);
                e.set_pc(PAGE);
                let got = e.run();
                let v = e.ld(n, b).map_err(|x| format!("{:?}", x))?;
                let want = if a == b { (0, 77) } else { (1, 12) };
                st.traces += 1;
                st.states += 1;
                st.transitions += 6;
                if !matches!(got, Ok(x) if x == want.0) || v != want.1 {
                    return Err(format!("{:?} with {:#x} bytes: {:?} at {:#x}, {:?} at {:#x}: {:?} and {} in memory instead of {:?}", ek, size, lr, a, sc, b, got, v, want));
                }
            }
        }
        st.sample(|| format!("{:?} with {:#x} bytes", ek, size));
        Ok(())
    });
}
