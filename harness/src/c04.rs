//! C04: the host-side memory API over operation histories, every backend against one model.
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::spec::*;
use ckb_vm::Bytes;

const P: u64 = 4096;
const F: u64 = 1 << 18;
const M: u64 = 2 * F;
const MEM: usize = M as usize;

#[derive(Clone, Debug)]
enum O {
    Store(u64, u64),
    Fill(u64, u64, u8),
    St(u64, u64),
    Ld(u64, u64),
    Load(u64, u64),
    Set(u64, u8),
    Clear(u64, u8),
    Init(u64, u64, u8, Option<u64>, u64),
    Ex16(u64),
    Ex32(u64),
    SetLr(u64),
    Lr,
    Reset,
}

/// What the backends of a phase enforce and how wide their registers are.
#[derive(Clone, Copy)]
struct Rules {
    wx: bool,
    mask: u64,
}
/// Bytes a failed operation may have written already: address and data.
type Torn = Option<(u64, Vec<u8>)>;

fn alphabet(full: bool) -> Vec<O> {
    let mut v = vec![];
    let big = u64::MAX;
    let ranges: Vec<(u64, u64)> = vec![
        (0, 1), (0, P), (1, P), (P - 1, 2), (P, P), (0, F - P), (F - 1, 1), (F - 1, 2), (F - P, P), (F - P, 2 * P), (F, 1), (F, P), (F, F - P), (F, F), (F - P, F), (0, M), (0, F), (M - P, P), (M - 1, 1), (M - 1, 2),
        (M, 1), (M, 0), (big, 1), (big - 7, 8), (P, 0), (1, big), (0, M + 1), (2 * P, 3 * P),
    ];
    for (k, &(a, n)) in ranges.iter().enumerate() {
        if n <= M + 1 {
            v.push(O::Store(a, n));
        }
        if full || k % 3 == 0 || n > M {
            v.push(O::Fill(a, n, 0xe1));
        }
        if full || k % 2 == 0 {
            v.push(O::Load(a, n));
        }
    }
    let mut pts: Vec<(u64, u64)> = vec![];
    for n in [1, 2, 4, 8] {
        for b in [P, F, M] {
            pts.push((n, b - n));
            pts.push((n, b - 1));
            if n > 2 {
                pts.push((n, b - n + 1));
            }
        }
        pts.push((n, M));
        pts.push((n, big));
        pts.push((n, big - n + 1));
    }
    pts.push((1, 0));
    pts.push((8, F));
    for (k, &(n, a)) in pts.iter().enumerate() {
        if full || k % 2 == 0 {
            v.push(O::St(n, a));
        }
        if full || k % 2 == 1 {
            v.push(O::Ld(n, a));
        }
    }
    for p in [0, 1, 63, 64, 127] {
        v.push(O::Set(p, EXEC));
        v.push(O::Clear(p, EXEC));
        v.push(O::Set(p, FREEZED));
        if full {
            v.push(O::Clear(p, FREEZED | DIRTY));
        }
    }
    v.push(O::Set(128, EXEC));
    v.push(O::Clear(128, EXEC));
    v.push(O::Set(big, EXEC));
    let inits: Vec<(u64, u64)> = vec![(0, P), (P, 2 * P), (F - P, 2 * P), (F, F), (F, F - P), (0, M), (M - P, P), (F, P), (0, 2 * F - P)];
    for (k, &(a, n)) in inits.iter().enumerate() {
        for (j, fl) in [0u8, EXEC | FREEZED, EXEC, FREEZED].into_iter().enumerate() {
            if full || (j + k) % 3 == 0 {
                v.push(O::Init(a, n, fl, Some(n), 0));
            }
        }
        v.push(O::Init(a, n, 0, Some(5), if k % 2 == 0 { 0 } else { 3 }));
        if full {
            v.push(O::Init(a, n, 0, None, 0));
            v.push(O::Init(a, n, EXEC, Some(n + 5), n / 2));
            v.push(O::Init(a, n, EXEC, Some(7), n));
        }
    }
    for x in [O::Init(M, 0, 0, None, 0), O::Init(M, P, 0, None, 0), O::Init(1, P, 0, None, 0), O::Init(0, 1, 0, Some(1), 0), O::Init(P, 0, EXEC, None, 0), O::Init(0, P, 0, None, P + 1), O::Init(M + P, 0, 0, None, 0), O::Init(0, 0, 0, None, 1), O::Init(P, 0, 0, Some(3), 1), O::Init(P, 0, EXEC, Some(3), 0), O::Init(M, 0, 0, Some(3), 1), O::Init(0, P, EXEC, Some(3), P - 1)] {
        v.push(x);
    }
    v.push(O::Init(big - 4095, P, 0, None, 0));
    v.push(O::Init(P, big - 4095, 0, None, 0));
    for a in [0, P - 2, P - 1, F - 1, M - 2, M - 1, M, big] {
        v.push(O::Ex16(a));
        if full || a != 0 {
            v.push(O::Ex32(a));
        }
    }
    v.push(O::Ex32(M - 4));
    v.push(O::SetLr(0x1234));
    v.push(O::Lr);
    v.push(O::Reset);
    v
}

fn pat(seed: u64, n: u64) -> Vec<u8> {
    (0..n).map(|k| (k.wrapping_mul(29) >> 3) as u8 ^ (k as u8) ^ ((seed * 53 + 17) as u8) | 1).collect()
}

#[derive(Debug, PartialEq)]
enum Out {
    Unit,
    Val(u64),
    Data(Vec<u8>),
}

/// Model of one operation. `loose`: flag bits a failed operation may or may not have set.
fn model(m: &mut SMem, lr: &mut u64, o: &O, seed: u64, loose: &mut [u8], ru: Rules, torn: &mut Torn) -> Result<Out, Trap> {
    let t = |k: Kind| Trap(vec![k]);
    let mut fail_write = |m: &SMem, a: u64, n: u64, e: Trap| -> Trap {
        if a < m.size {
            for p in a / P..=a.saturating_add(n - 1).min(m.size - 1) / P {
                loose[p as usize] |= DIRTY;
            }
        }
        e
    };
    let word = 0xf1e2_d3c4_b5a6_9788u64.wrapping_add(seed) & ru.mask;
    let saved = m.flags.clone();
    if !ru.wx {
        // nothing is enforced: permissions do not matter, but are kept
        m.flags.iter_mut().for_each(|f| *f &= DIRTY);
        let r = model_raw(m, lr, o, seed, loose, ru, torn);
        for (f, s) in m.flags.iter_mut().zip(&saved) {
            if !matches!(o, O::Set(..) | O::Clear(..) | O::Reset) {
                *f |= s;
            }
        }
        if let O::Set(p, f) | O::Clear(p, f) = *o {
            m.flags = saved;
            if r.is_ok() {
                if matches!(o, O::Set(..)) {
                    m.flags[p as usize] |= f;
                } else {
                    m.flags[p as usize] &= !f;
                }
            }
        }
        return r;
    }
    match *o {
        O::SetLr(v) => {
            *lr = v & ru.mask;
            Ok(Out::Unit)
        }
        O::Lr => Ok(Out::Val(*lr)),
        O::Store(_, 0) | O::Fill(_, 0, _) => Ok(Out::Unit),
        O::Store(a, n) => m.wr_bytes(a, &pat(seed, n)).map(|_| Out::Unit).map_err(|e| fail_write(m, a, n, e)),
        O::Fill(a, n, v) => {
            if !m.in_bounds(a, n) {
                let e = m.check_write(a, n).unwrap_err();
                return Err(fail_write(m, a, n, e));
            }
            m.wr_bytes(a, &vec![v; n as usize]).map(|_| Out::Unit).map_err(|e| fail_write(m, a, n, e))
        }
        O::St(n, a) => m.wr(a & ru.mask, n, word).map(|_| Out::Unit).map_err(|e| fail_write(m, a & ru.mask, n, e)),
        O::Ld(n, a) => m.rd(a & ru.mask, n).map(|v| Out::Val(v & ru.mask)),
        O::Load(_, 0) => Ok(Out::Data(vec![])),
        O::Load(a, n) => {
            if !m.in_bounds(a, n) {
                return Err(t(Kind::Oob));
            }
            let mut d = Vec::with_capacity(n as usize);
            let mut k = a;
            while k < a + n {
                let p = m.page(k / P);
                let e = ((k / P + 1) * P).min(a + n);
                d.extend_from_slice(&p[(k % P) as usize..(k % P + e - k) as usize]);
                k = e;
            }
            Ok(Out::Data(d))
        }
        O::Set(p, f) | O::Clear(p, f) => {
            if p as usize >= m.flags.len() || p > m.size {
                return Err(t(Kind::Oob));
            }
            if matches!(o, O::Set(..)) {
                m.flags[p as usize] |= f;
            } else {
                m.flags[p as usize] &= !f;
            }
            Ok(Out::Unit)
        }
        O::Init(a, n, f, src, off) => {
            let mut bad = vec![];
            if a % P != 0 || n % P != 0 {
                bad.push(Kind::Unaligned);
            }
            if a > m.size || n > m.size || a + n > m.size || off > n {
                bad.push(Kind::Oob);
            }
            if !bad.is_empty() {
                return Err(Trap(bad));
            }
            let (p0, p1) = (a / P, (a + n) / P);
            if (p0..p1).any(|p| m.flags[p as usize] & FREEZED != 0) {
                for p in p0..p1 {
                    loose[p as usize] |= f | DIRTY;
                }
                return Err(t(Kind::Frozen));
            }
            let mut d = vec![0u8; n as usize];
            if let Some(s) = src {
                let s = pat(seed, s);
                let k = (s.len()).min((n - off) as usize);
                d[off as usize..off as usize + k].copy_from_slice(&s[..k]);
            }
            m.poke_pages(a, &d);
            for p in p0..p1 {
                m.flags[p as usize] |= f | DIRTY;
            }
            Ok(Out::Unit)
        }
        O::Ex16(a) | O::Ex32(a) => {
            let n = if matches!(o, O::Ex16(_)) { 2 } else { 4 };
            let bad = a < m.size && (a / P..=a.saturating_add(n - 1) / P).any(|p| (p as usize) < m.flags.len() && m.flags[p as usize] & EXEC == 0);
            if !m.in_bounds(a, n) {
                return Err(Trap(if bad { vec![Kind::Oob, Kind::Perm] } else { vec![Kind::Oob] }));
            }
            if bad {
                return Err(t(Kind::Perm));
            }
            m.rd(a, n).map(Out::Val)
        }
        O::Reset => {
            *m = SMem::new(m.size);
            *lr = ru.mask;
            loose.iter_mut().for_each(|x| *x = 0);
            Ok(Out::Unit)
        }
    }
}

/// Memories without the W^X wrapper: page initialisation only writes, executable fetches only read,
/// and a write that runs past the end may have written what was in range.
fn model_raw(m: &mut SMem, lr: &mut u64, o: &O, seed: u64, loose: &mut [u8], ru: Rules, torn: &mut Torn) -> Result<Out, Trap> {
    let strict = Rules { wx: true, mask: ru.mask };
    let op = match *o {
        O::Ex16(a) => O::Ld(2, a),
        O::Ex32(a) => O::Ld(4, a),
        O::Init(a, n, _, s, off) => O::Init(a, n, 0, s, off),
        _ => o.clone(),
    };
    let r = model(m, lr, &op, seed, loose, strict, torn);
    if r.is_err() {
        let d = match op {
            O::Store(a, n) if n <= M + 1 => Some((a, pat(seed, n))),
            O::Fill(a, n, v) => Some((a, vec![v; n.min(M + 1) as usize])),
            O::St(n, a) => Some((a & ru.mask, (0xf1e2_d3c4_b5a6_9788u64.wrapping_add(seed) & ru.mask).to_le_bytes()[..n as usize].to_vec())),
            _ => None,
        };
        *torn = d.filter(|d| d.0 < m.size);
    }
    r
}

fn real(e: &mut dyn Eng, o: &O, seed: u64) -> Result<Out, ckb_vm::Error> {
    match *o {
        O::Store(a, n) => e.store_bytes(a, &pat(seed, n)).map(|_| Out::Unit),
        O::Fill(a, n, v) => e.store_byte(a, n, v).map(|_| Out::Unit),
        O::St(n, a) => e.st(n, a, 0xf1e2_d3c4_b5a6_9788u64.wrapping_add(seed)).map(|_| Out::Unit),
        O::Ld(n, a) => e.ld(n, a).map(Out::Val),
        O::Load(a, n) => e.load_bytes(a, n).map(|b| Out::Data(b.to_vec())),
        O::Set(p, f) => e.set_flag(p, f).map(|_| Out::Unit),
        O::Clear(p, f) => e.clear_flag(p, f).map(|_| Out::Unit),
        O::Init(a, n, f, s, off) => e.init_pages(a, n, f, s.map(|s| Bytes::from(pat(seed, s))), off).map(|_| Out::Unit),
        O::Ex16(a) => e.ex16(a).map(|v| Out::Val(v as u64)),
        O::Ex32(a) => e.ex32(a).map(|v| Out::Val(v as u64)),
        O::SetLr(v) => {
            e.set_lr(v);
            Ok(Out::Unit)
        }
        O::Lr => Ok(Out::Val(e.lr())),
        O::Reset => e.reset_memory().map(|_| Out::Unit),
    }
}

struct W {
    engs: Vec<Box<dyn Eng>>,
    ru: Rules,
}

fn history(w: &mut W, ops: &[&O], st: &mut Stats) -> CaseRes {
    let mut m = SMem::new(M);
    let mut loose = vec![0u8; m.flags.len()];
    let mut lr = w.ru.mask;
    let mut torn: Torn = None;
    for e in w.engs.iter_mut() {
        e.reset_memory().map_err(|x| format!("reset: {:?}", x))?;
    }
    let mut sticky = false;
    for (k, o) in ops.iter().enumerate() {
        if torn.is_some() || sticky && loose.iter().any(|l| l & (EXEC | FREEZED) != 0) && !matches!(o, O::Reset) {
            break; // the model no longer determines the outcome
        }
        let want = model(&mut m, &mut lr, o, k as u64, &mut loose, w.ru, &mut torn);
        sticky = true;
        st.states += 1;
        st.transitions += 1;
        for e in w.engs.iter_mut() {
            let got = real(e.as_mut(), o, k as u64);
            let ok = match (&got, &want) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(t)) => t.0.contains(&kind(a)),
                _ => false,
            };
            if !ok {
                let f = |x: String| if x.len() > 200 { format!("{}...", &x[..200]) } else { x };
                return Err(format!("{:?}: operation {} of {:?} returned {} instead of {}", e.ek(), k, ops, f(format!("{:?}", got)), f(format!("{:?}", want))));
            }
        }
    }
    for e in w.engs.iter_mut() {
        let ek = e.ek();
        let fail = |x: String| format!("after {:?}: {}", ops, x);
        for p in 0..m.flags.len() as u64 {
            let f = e.flag(p).map_err(|x| fail(format!("flag {:?}", x)))?;
            if (f ^ m.flags[p as usize]) & !loose[p as usize] != 0 {
                return Err(fail(format!("{:?}: flags of page {} = {:#x} instead of {:#x}", ek, p, f, m.flags[p as usize])));
            }
        }
        let b = e.load_bytes(0, M).map_err(|x| fail(format!("{:?}", x)))?;
        for p in 0..m.flags.len() as u64 {
            let mut got = b[(p * P) as usize..(p * P + P) as usize].to_vec();
            if let Some((a, d)) = &torn {
                // a failed write may have completed any part of its range
                for (k, g) in got.iter_mut().enumerate() {
                    let at = p * P + k as u64;
                    if at >= *a && at - a < d.len() as u64 && *g == d[(at - a) as usize] {
                        *g = m.rd8(at);
                    }
                }
            }
            cmp_page(ek, &m, p, &got).map_err(fail)?;
        }
        st.traces += 1;
    }
    Ok(())
}

pub fn run(r: &mut Run) {
    let full = alphabet(true);
    let red = alphabet(false);
    let eks = [EK::I64Flat, EK::I64Sparse, EK::AsmSimple];
    let mkw = |eks: &[EK], ru: Rules| W { engs: eks.iter().map(|k| make(*k, &Opt::new(if ru.mask >> 32 == 0 { 4 } else { 7 }, 2, MEM))).collect(), ru };
    let mk = || mkw(&eks, Rules { wx: true, mask: u64::MAX });
    r.bound(format!("512 KiB memory (two lazily initialised frames); all histories of 1 and 2 operations over {} operations{}; backends {:?}; every page's bytes and flags compared at the end", full.len(), if r.quick() { "" } else { ", all histories of 3 over a reduced alphabet" }, eks));
    r.assume("a failed store may mark pages of its range dirty; a failed page initialisation may already have added flags to pages of its range (contents and frozen pages must be unchanged); when several reasons for failure hold, any of them may be reported");
    let n = full.len() as u64;
    let fl = full.clone();
    r.phase("histories of 1", n, 16, mk, |w, i, st| history(w, &[&fl[i as usize]], st));
    let fl = full.clone();
    r.phase("histories of 2", n * n, 64, mk, |w, i, st| {
        let o = [&fl[(i / n) as usize], &fl[(i % n) as usize]];
        st.sample(|| format!("{:?}", o));
        history(w, &o, st)
    });
    // three operations: a state-changing prefix that matters, then everything
    let muts: Vec<O> = red.iter().filter(|o| !matches!(o, O::Ld(..) | O::Load(..) | O::Ex16(_) | O::Ex32(_))).cloned().collect();
    let (a, b) = if r.quick() {
        // first operations: those that set up permissions or fill frames
        let pre: Vec<O> = vec![O::Init(0, M, 0, Some(M), 0), O::Set(63, EXEC), O::Set(64, FREEZED), O::Store(F, F - P)];
        (pre, muts.clone())
    } else {
        (muts.clone(), muts.clone())
    };
    let c = red.clone();
    let (na, nb, nc) = (a.len() as u64, b.len() as u64, c.len() as u64);
    r.phase("histories of 3", na * nb * nc, 64, mk, |w, i, st| {
        let o = [&a[(i / nc / nb) as usize], &b[(i / nc % nb) as usize], &c[(i % nc) as usize]];
        st.sample(|| format!("{:?}", o));
        history(w, &o, st)
    });

    // ---- the other backends: without the W^X wrapper, and with 32-bit registers
    let valid = |o: &O| match *o {
        O::Init(a, n, _, _, off) => a % P == 0 && n % P == 0 && a <= M && n <= M - a && off <= n,
        O::Fill(_, n, _) => n <= M + 1,
        _ => true,
    };
    let other: &[(&str, &[EK], Rules)] = &[
        ("unwrapped 64-bit", &[EK::RawFlat, EK::RawSparse], Rules { wx: false, mask: u64::MAX }),
        ("W^X 32-bit", &[EK::I32Flat, EK::I32Sparse], Rules { wx: true, mask: 0xffff_ffff }),
        ("unwrapped 32-bit", &[EK::Raw32Flat, EK::Raw32Sparse], Rules { wx: false, mask: 0xffff_ffff }),
    ];
    for &(name, eks, ru) in other {
        let al: Vec<O> = if r.quick() { &red } else { &full }.iter().filter(|o| ru.wx || valid(o)).cloned().collect();
        let n = al.len() as u64;
        r.phase(&format!("{} histories of 2", name), n * n, 64, || mkw(eks, ru), |w, i, st| {
            let o = [&al[(i / n) as usize], &al[(i % n) as usize]];
            st.sample(|| format!("{} {:?}", name, o));
            history(w, &o, st)
        });
    }
    crate::scale::large(r, crate::scale::Large::Host);
    crate::scale::ranges(r, &[EK::I64Flat, EK::I64Sparse, EK::I32Sparse, EK::AsmSimple]);
    // ---- more pages in use than a 16-bit page number can name
    r.bound("memories of 65536+64 pages (257 MiB), every page written and read back, on every backend");
    let big: &[EK] = &[EK::I64Flat, EK::I64Sparse, EK::RawSparse, EK::I32Sparse, EK::AsmSimple];
    r.phase("every page of a large memory", big.len() as u64, 1, || (), |_, i, st| {
        const PAGES: u64 = 65536 + 64;
        let mut e = make(big[i as usize], &Opt::new(0, 2, (PAGES * P) as usize));
        let val = |p: u64| p.wrapping_mul(0x9e37_79b9) & 0xffff_ffff;
        for p in 0..PAGES {
            e.st(4, p * P + (p % 1000) * 4, val(p)).map_err(|x| format!("{:?}: store to page {}: {:?}", big[i as usize], p, x))?;
        }
        for p in 0..PAGES {
            let v = e.ld(4, p * P + (p % 1000) * 4).map_err(|x| format!("{:?}: load from page {}: {:?}", big[i as usize], p, x))?;
            if v != val(p) {
                return Err(format!("{:?}: with all of {} pages written, page {} reads {:#x} instead of {:#x}", big[i as usize], PAGES, p, v, val(p)));
            }
            let z = e.ld(4, p * P + 4092).map_err(|x| format!("{:?}", x))?;
            if z != 0 {
                return Err(format!("{:?}: with all of {} pages written, an unwritten word of page {} reads {:#x}", big[i as usize], PAGES, p, z));
            }
        }
        st.states += 2 * PAGES;
        st.transitions += 3 * PAGES;
        st.traces += 1;
        Ok(())
    });
}
