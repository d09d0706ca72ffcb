//! C09: version-2 snapshots at every boundary, between all engines; histories of mappings and writes.
use crate::asmb::*;
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::snap::*;
use crate::spec::*;
use ckb_vm::elf::{LoadingAction, ProgramMetadata};
use ckb_vm::Bytes;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum O {
    /// address, data, offset, length, where the size goes
    Map(u64, u32, u64, u64, u64),
    Mark(Vec<(u64, u64, u8, u64, u64, u64)>),
    Write(u64, Vec<u8>),
    Fill(u64, u64, u8),
    Init(u64, u64, u8),
    /// guest instruction, address in x8
    Guest(u32, u64),
    SetFlag(u64, u8),
    ClearFlag(u64, u8),
    Untrack(u64, u64),
    InitTrack(u64, u64, u32, u64),
    /// track a page that already holds what the source holds, without writing it
    Track(u64, u32, u64),
    Swap,
}
fn ops() -> Vec<O> {
    use O::*;
    vec![
        Map(0x8000, 1, 0, 0x1000, 0x2000),
        Map(0x8000, 1, 0x123, 0x2000, 0x2000),
        Map(0x8800, 1, 0x40, 0x2000, 0x2000),
        Map(0x9000, 1, 0x800, 0x1000, 0x2000),
        Map(0x9000, 0, 0, 0, 0x2000),
        Map(0xa000, 1, 0x2f00, 0x1000, 0x2000),
        Map(0x8000, 1, 0, 0x1000, 0x8ff8),
        Map(0x9000, 1, 0x1000, 0x1000, 0x8000),
        Mark(vec![(0x8000, 0x2000, 0, 0x100, 0x1200, 0x40)]),
        Mark(vec![(0x8000, 0x1000, 0, 0, 0x1000, 0), (0x8000, 0x1000, 0, 0x10, 0x20, 0)]),
        Mark(vec![(0x9000, 0x2000, EXEC | FREEZED, 0, 0x2000, 0)]),
        Mark(vec![(0x8000, 0x2000, 0, 0, 0x2000, 0), (0x9000, 0x1000, 0, 0x800, 0x1800, 0x10)]),
        Write(0x8000, vec![0x5a]),
        Write(0x8ffe, vec![1, 2, 3, 4]),
        Fill(0xa000, 0x1000, 0),
        Init(0x9000, 0x1000, 0),
        Guest(enc(Op::SW, 0, 8, 6, 0), 0x9004),
        Guest(enc(Op::SW, 0, 8, 0, 0), 0x9ff8),
        Guest(enc(Op::SW, 0, 8, 6, 0), 0x9ffe),
        Guest(enc(Op::AMOADD_W, 7, 8, 6, 0), 0xa000),
        Guest(enc(Op::LR_W, 7, 8, 0, 0), 0x8010),
        Guest(enc(Op::SC_W, 7, 8, 6, 0), 0x8010),
        SetFlag(9, EXEC),
        ClearFlag(9, EXEC),
        Untrack(0x8800, 0x1000),
        Untrack(0x9000, 0x10),
        InitTrack(0xa000, 0x1000, 1, 0x1000),
        Track(0x9000, 2, 0),
        Swap,
    ]
}
fn rare() -> Vec<O> {
    use O::*;
    vec![
        Untrack(0x8fff, 1),
        Untrack(0x9fff, 2),
        Untrack(0x9000, 0),
        Map(0x9000, 7, 0, 0x1000, 0x2000),
        Map(0x9000, 1, 0, 0x1000, u64::MAX - 3),
        Map(0x7f000, 1, 0, 0x2000, 0x2000),
        Map(0x7f000, 1, 0, 0x1000, 0x2000),
        Map(0x9000, 1, 0x5000, 0x1000, 0x2000),
        Map(0x8fff, 1, 0, 0x1001, 0x2000),
        Map(0x9001, 1, 0, 0xfff, 0x2000),
        Map(0x9000, 1, 0, 0xfff, 0x2000),
        Map(0x3f000, 1, 0, 0x2000, 0x2000),
        Mark(vec![(0x9000, 0x1000, 0, 0, 0x2000, 0)]),
        // more bytes than room behind an offset of a whole page
        Mark(vec![(0x8000, 0x2000, 0, 0, 0x2800, 0x1000)]),
        Mark(vec![(0x8000, 0x3000, 0, 0, 0x1800, 0x800)]),
        Mark(vec![(0x8000, 0x3000, EXEC | FREEZED, 0, 0, 0)]),
        Write(0x40000, vec![9]),
        Guest(enc(Op::SB, 0, 8, 6, 0), 0x3ffff),
    ]
}

fn words() -> &'static Vec<u32> {
    static T: std::sync::OnceLock<Vec<u32>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        for o in ops().iter().chain(rare().iter()) {
            if let O::Guest(w, _) = o {
                if !v.contains(w) {
                    v.push(*w);
                }
            }
        }
        v
    })
}

struct M {
    e: Box<dyn Eng>,
    c: Ctx2,
    s: SMem,
    tracked: BTreeMap<u64, (u32, u64)>,
    /// mapped pages that a refused request was aimed at: may be saved either way
    loose: BTreeSet<u64>,
    /// a program was refused half way: the history ends here
    stop: bool,
}
fn src() -> Ds {
    let d: Vec<u8> = (0..3 * 4096u32).map(|k| (k.wrapping_mul(0x9e37) >> 8) as u8).collect();
    let f: Vec<u8> = (0..0x1018u32).map(|k| (k.wrapping_mul(0x51d7) >> 6) as u8 | 1).collect();
    Ds { data: vec![f.into(), d.into(), vec![0; 4096].into()] }
}
/// The program routine used by Guest: one instruction, then exit.
const G: u64 = 0x4000;

impl M {
    fn new(ek: EK, version: u32, e: Box<dyn Eng>) -> M {
        let mut m = M { e, c: Ctx2::new(src()), s: SMem::new(MEM as u64), tracked: BTreeMap::new(), loose: BTreeSet::new(), stop: false };
        let _ = (ek, version);
        m.e.reset(u64::MAX).unwrap();
        m.e.fresh_decoder();
        m.install();
        m
    }
    /// All guest instructions are installed once: nothing the host does between them
    /// renews what an engine remembers about the pages they touch.
    fn install(&mut self) {
        for (k, w) in words().iter().enumerate() {
            let mut c = Code::new();
            c.w(*w);
            c.exit();
            let a = G + 16 * k as u64;
            self.e.store_bytes(a, &c.0).unwrap();
            self.s.poke(a, &c.0);
        }
        self.e.set_flag(G / PAGE, EXEC).unwrap();
        self.s.flags[(G / PAGE) as usize] = EXEC;
    }
    fn code(&mut self, w: u32) {
        let k = words().iter().position(|x| *x == w).unwrap() as u64;
        self.e.set_pc(G + 16 * k);
    }
    fn touched(&mut self, a: u64, n: u64) {
        if n > 0 {
            for p in a / PAGE..=(a + n - 1) / PAGE {
                self.tracked.remove(&p);
            }
        }
    }
    fn track(&mut self, a: u64, n: u64, id: u32, off: u64) {
        let mut p = a.div_ceil(PAGE);
        while (p + 1) * PAGE <= a + n {
            self.tracked.insert(p, (id, off + (p * PAGE - a)));
            self.loose.remove(&p);
            p += 1;
        }
    }
    fn write(&mut self, a: u64, d: &[u8]) -> bool {
        if d.is_empty() {
            return true;
        }
        if !self.s.in_bounds(a, d.len() as u64) || self.s.check_write(a, d.len() as u64).is_err() {
            let last = a.saturating_add(d.len() as u64 - 1) / PAGE;
            self.loose.extend(a / PAGE..=last.min(MEM as u64 / PAGE));
            return false;
        }
        self.s.poke(a, d);
        self.touched(a, d.len() as u64);
        true
    }
    fn init(&mut self, a: u64, n: u64, f: u8, d: &[u8], off: u64) -> bool {
        if (a / PAGE..(a + n) / PAGE).any(|p| self.s.flags[p as usize] & FREEZED != 0) {
            return false;
        }
        let mut b = vec![0u8; n as usize];
        let k = d.len().min((n - off) as usize);
        b[off as usize..off as usize + k].copy_from_slice(&d[..k]);
        self.s.poke(a, &b);
        self.touched(a, n);
        for p in a / PAGE..(a + n) / PAGE {
            self.s.flags[p as usize] |= f;
        }
        true
    }
    fn apply(&mut self, o: &O, next: &dyn Fn() -> Box<dyn Eng>) -> Result<(), String> {
        let ds = src();
        let want = |r: Result<(), ckb_vm::Error>, ok: bool| if r.is_ok() == ok { Ok(()) } else { Err(format!("gave {:?}, expected success: {}", r, ok)) };
        match o {
            O::Map(a, id, off, len, at) => {
                let r = self.e.c2_store_bytes(&mut self.c, *a, *id, *off, *len, *at);
                let d = match ds.data.get(*id as usize) {
                    None => return if matches!(r, Err(ckb_vm::Error::SnapshotDataLoadError)) { Ok(()) } else { Err(format!("unknown data gave {:?}", r)) },
                    Some(d) => d,
                };
                let rest = &d[(*off as usize).min(d.len())..];
                let take = if *len == 0 { rest.len() } else { rest.len().min(*len as usize) };
                if !self.write(*at, &(rest.len() as u64).to_le_bytes()) {
                    return want(r.map(|_| ()), false);
                }
                // the size is in place even when the data is refused
                let ok = self.write(*a, &rest[..take]);
                if ok {
                    self.track(*a, take as u64, *id, *off);
                }
                let full = rest.len() as u64;
                if let Ok(v) = &r {
                    if *v != (take as u64, full) {
                        return Err(format!("returned {:?} instead of {:?}", v, (take, full)));
                    }
                }
                want(r.map(|_| ()), ok)
            }
            O::Mark(acts) => {
                let md = ProgramMetadata {
                    actions: acts.iter().map(|a| LoadingAction { addr: a.0, size: a.1, flags: a.2, source: a.3..a.4, offset_from_addr: a.5 }).collect(),
                    entry: G,
                };
                // the program is data 1 from offset 0x40 on
                let p = ds.data[1].slice(0x40..);
                let r = self.e.load_meta(&p, &md, &[]);
                let mut ok = true;
                for a in acts {
                    if !self.init(a.0, a.1, a.2, &p[a.3 as usize..a.4 as usize], a.5) {
                        ok = false;
                        break;
                    }
                }
                want(r.map(|_| ()), ok)?;
                self.stop = !ok;
                if ok {
                    self.e.c2_mark(&mut self.c, &md, 1, 0x40).map_err(|e| format!("mark_program: {:?}", e))?;
                    for a in acts {
                        self.touched(a.0, a.1);
                        self.track(a.0 + a.5, (a.4 - a.3).min(a.1 - a.5), 1, 0x40 + a.3);
                    }
                }
                Ok(())
            }
            O::Write(a, d) => {
                let r = self.e.store_bytes(*a, d);
                let ok = self.write(*a, d);
                want(r, ok)
            }
            O::Fill(a, n, v) => {
                let r = self.e.store_byte(*a, *n, *v);
                let ok = self.write(*a, &vec![*v; *n as usize]);
                want(r, ok)
            }
            O::Init(a, n, f) => {
                let r = self.e.init_pages(*a, *n, *f, None, 0);
                let ok = self.init(*a, *n, *f, &[], 0);
                want(r, ok)
            }
            O::Guest(w, a) => {
                self.code(*w);
                self.e.set_x(8, *a);
                self.e.set_x(6, 0x1234_5678);
                let xlen = self.e.ek().xlen();
                let mut s = Spec::new(Cfg { xlen, isa: 7, version: 2 }, 4096);
                std::mem::swap(&mut s.mem, &mut self.s);
                s.x = self.e.x();
                s.pc = self.e.pc();
                s.lr = self.e.lr();
                let c0 = self.e.cycles();
                s.cycles = c0;
                let before: Vec<_> = s.mem.flags.clone();
                for f in s.mem.flags.iter_mut() {
                    *f &= !DIRTY;
                }
                let r = self.e.run();
                let sr = s.run(&|i| cost_of(i.op), false, 50).unwrap();
                std::mem::swap(&mut s.mem, &mut self.s);
                let wrote: Vec<u64> = (0..before.len() as u64).filter(|p| self.s.flags[*p as usize] & DIRTY != 0).collect();
                self.s.flags = before;
                for p in wrote {
                    self.tracked.remove(&p);
                }
                if sr.is_err() {
                    self.loose.extend([*a / PAGE, a / PAGE + 1]);
                }
                let ek = self.e.ek();
                cmp_end(self.e.as_mut(), &s, &r, &sr)?;
                if self.e.lr() != s.lr {
                    return Err(format!("{:?}: reservation {:#x} instead of {:#x}", ek, self.e.lr(), s.lr));
                }
                Ok(())
            }
            // what a snapshot keeps are pages that were written or mapped
            O::SetFlag(p, _) | O::ClearFlag(p, _) if self.e.flag(*p).unwrap() & DIRTY == 0 && !self.tracked.contains_key(p) => Ok(()),
            O::SetFlag(p, f) => {
                self.s.flags[*p as usize] |= f;
                want(self.e.set_flag(*p, *f), true)
            }
            O::ClearFlag(p, f) => {
                self.s.flags[*p as usize] &= !f;
                want(self.e.clear_flag(*p, *f), true)
            }
            O::Untrack(a, n) => {
                self.touched(*a, *n);
                want(self.e.c2_untrack(&mut self.c, *a, *n), true)
            }
            O::InitTrack(a, n, id, off) => {
                let d = ds.data[*id as usize].slice(*off as usize..(*off + *n) as usize);
                let r = self.e.init_pages(*a, *n, 0, Some(d.clone()), 0);
                let ok = self.init(*a, *n, 0, &d, 0);
                if ok {
                    self.track(*a, *n, *id, *off);
                    self.e.c2_track(&mut self.c, *a, *n, *id, *off).map_err(|e| format!("track_pages: {:?}", e))?;
                }
                want(r, ok)
            }
            O::Track(a, id, off) => {
                if self.s.page(a / PAGE) == ds.data[*id as usize][*off as usize..*off as usize + 4096] {
                    self.track(*a, PAGE, *id, *off);
                    self.e.c2_track(&mut self.c, *a, PAGE, *id, *off).map_err(|e| format!("track_pages: {:?}", e))?;
                }
                Ok(())
            }
            O::Swap => {
                let m = self.restored(next())?;
                self.e = m.0;
                self.c = m.1;
                Ok(())
            }
        }
    }
    /// Snapshot, check what it is made of, restore it on `e`, compare.
    fn restored(&mut self, mut e: Box<dyn Eng>) -> Result<(Box<dyn Eng>, Ctx2), String> {
        let ek = self.e.ek();
        let s = self.e.snap2(&self.c).map_err(|x| format!("{:?}: make_snapshot: {:?}", ek, x))?;
        // pages still as they were mapped come from the source, and only they do
        let ds = src();
        let mut got = BTreeMap::new();
        for (a, _, id, off, len) in &s.pages_from_source {
            for k in 0..len / PAGE {
                if got.insert(a / PAGE + k, (*id, off + k * PAGE)).is_some() {
                    return Err(format!("{:?}: page {} appears twice", ek, a / PAGE + k));
                }
            }
        }
        if got.iter().any(|(p, v)| self.tracked.get(p) != Some(v)) || self.tracked.keys().any(|p| !got.contains_key(p) && !self.loose.contains(p)) {
            return Err(format!("{:?}: pages restored from a source are {:x?} instead of {:x?}", ek, got, self.tracked));
        }
        self.tracked = got.clone();
        self.loose.clear();
        for (p, (id, off)) in &got {
            if self.s.page(*p) != ds.data[*id as usize][*off as usize..*off as usize + 4096] {
                return Err(format!("harness: model of page {} differs from its source", p));
            }
        }
        let mut c = Ctx2::new(src());
        e.resume2(&mut c, &s).map_err(|x| format!("{:?}: resume: {:?}", e.ek(), x))?;
        let w = format!("{:?} restored on {:?}", ek, e.ek());
        if e.x() != self.e.x() || e.pc() != self.e.pc() || e.cycles() != self.e.cycles() || e.max_cycles() != self.e.max_cycles() || e.lr() != self.e.lr() {
            return Err(format!("{}: registers, pc, cycles, limit or reservation differ", w));
        }
        for p in 0..MEM as u64 / PAGE {
            if p >= 16 && p < 60 {
                continue;
            }
            let (a, b) = (self.e.flag(p).unwrap(), e.flag(p).unwrap());
            if self.stop && a & DIRTY == 0 && !self.tracked.contains_key(&p) {
                continue;
            }
            if a != b {
                return Err(format!("{}: flags of page {} are {:#x} instead of {:#x}", w, p, b, a));
            }
            if b & EXEC != self.s.flags[p as usize] & EXEC {
                return Err(format!("{}: flags of page {} are {:#x}, the model has {:#x}", w, p, b, self.s.flags[p as usize]));
            }
            let b = e.load_bytes(p * PAGE, PAGE).unwrap();
            cmp_page(e.ek(), &self.s, p, &b).map_err(|m| format!("{}: {}", w, m))?;
            if p < 16 || p % 8 == 0 || p > 0x7c {
                let b = self.e.load_bytes(p * PAGE, PAGE).unwrap();
                cmp_page(ek, &self.s, p, &b).map_err(|m| format!("original: {}", m))?;
            }
        }
        Ok((e, c))
    }
}

fn histories(r: &mut Run, name: &str, alphabet: Vec<O>, len: u32, firsts: &[EK]) {
    let n = alphabet.len() as u64;
    let k = firsts.len() as u64;
    r.phase(
        name,
        n.pow(len) * k,
        4,
        || firsts.iter().map(|ek| Some(make(*ek, &Opt::new(7, 2, MEM)))).collect::<Vec<_>>(),
        |w, i, st| {
            let fi = (i % k) as usize;
            let ek = firsts[fi];
            let d = digits(i / k, &vec![n; len as usize]);
            let set: &[EK] = if ek.xlen() == 32 { ALL32 } else { ALL64 };
            let turn = std::cell::Cell::new((i / k) as usize + d.iter().sum::<usize>());
            let next = || {
                turn.set(turn.get() + 1);
                make(set[turn.get() % set.len()], &Opt::new(7, 2, MEM))
            };
            let e = w[fi].take().unwrap_or_else(|| make(ek, &Opt::new(7, 2, MEM)));
            let mut m = M::new(ek, 2, e);
            m.e.set_x(31, 0x8000_0001);
            m.e.set_cycles(77);
            m.e.set_max(1 << 40);
            m.e.set_lr(0x8010);
            let show = |j: usize| format!("{:?} {:?} step {}", ek, d.iter().map(|k| &alphabet[*k]).collect::<Vec<_>>(), j);
            for (j, k) in d.iter().enumerate() {
                m.apply(&alphabet[*k], &next).map_err(|x| format!("{}: {}", show(j), x))?;
                st.transitions += 1;
                if m.stop {
                    break;
                }
            }
            let (e2, c2) = m.restored(next()).map_err(|x| format!("{}: {}", show(d.len()), x))?;
            // the restored machine remembers what came from where: saving it again gives the same
            let swapped = d.iter().any(|k| matches!(alphabet[*k], O::Swap));
            let old = std::mem::replace(&mut m.e, e2);
            m.c = c2;
            if !swapped {
                w[fi] = Some(old);
            }
            m.restored(next()).map_err(|x| format!("{}: second snapshot: {}", show(d.len()), x))?;
            st.states += len as u64 + 1;
            st.traces += 2;
            st.sample(|| show(d.len()));
            Ok(())
        },
    );
}

/// Snapshots with one field out of place.
fn malformed(r: &mut Run) {
    #[derive(Clone, Debug)]
    enum Mut {
        Version(u32),
        SrcAddr(u64),
        SrcId(u32),
        SrcOff(u64),
        SrcLen(u64),
        DirtyAddr(u64),
        DirtyLen(usize),
        None,
    }
    use Mut::*;
    let mut muts = vec![None, Version(0), Version(1), Version(3), Version(u32::MAX), SrcId(2), SrcId(u32::MAX)];
    let top = MEM as u64;
    for a in [1, 0x8001, 0x8fff, top, top - 0x1000, top - 1, top + 0x1000, 0xffff_f000, 0x1_0000_0000, u64::MAX, u64::MAX - 0xfff, 1 << 63] {
        muts.push(SrcAddr(a));
        muts.push(DirtyAddr(a));
    }
    for l in [1, 0xfff, 0x1001, 0x1fff, 0x3001, 0x4000, u64::MAX, u64::MAX - 0xfff] {
        muts.push(SrcLen(l));
    }
    for o in [1, 0x1001, 0x2000, 0x2fff, 0x3000, 0x5000, u64::MAX, u64::MAX - 0xfff] {
        muts.push(SrcOff(o));
    }
    for l in [1usize, 0xfff, 0x1001, 0x2fff] {
        muts.push(DirtyLen(l));
    }
    let all: Vec<EK> = ALL64.iter().chain(ALL32).copied().collect();
    let n = muts.len() as u64;
    r.phase("malformed snapshots", n * all.len() as u64, 4, || (), |_, i, st| {
        let ek = all[(i / n) as usize];
        let mu = &muts[(i % n) as usize];
        let mut e = make(ek, &Opt::new(7, 2, MEM));
        let mut c = Ctx2::new(src());
        let er = |x| format!("{:?}", x);
        e.c2_store_bytes(&mut c, 0x8000, 1, 0, 0x2000, 0x4000).map_err(er)?;
        e.store_bytes(0x6000, &[5; 0x2000]).map_err(er)?;
        let mut s = e.snap2(&c).map_err(er)?;
        // (how pages are gathered into entries is up to the snapshot)
        let total: u64 = s.pages_from_source.iter().map(|p| p.4).sum();
        if total != 0x2000 {
            return Err(format!("{:?}: pages from source {:?}", ek, s.pages_from_source));
        }
        s.pages_from_source = vec![(0x8000, e.flag(8).map_err(er)?, 1, 0, 0x2000)];
        s.dirty_pages = vec![(0x6000, e.flag(6).map_err(er)?, vec![5; 0x2000])];
        let di = 0;
        let src_len = 0x3000u64;
        let mut fits = true;
        match mu {
            None => {}
            Version(v) => {
                s.version = *v;
                fits = false;
            }
            SrcAddr(a) => {
                s.pages_from_source[0].0 = *a;
                fits = a % PAGE == 0 && a.checked_add(0x2000).map_or(false, |x| x <= top);
            }
            SrcId(v) => {
                s.pages_from_source[0].2 = *v;
                fits = false;
            }
            SrcOff(o) => {
                s.pages_from_source[0].3 = *o;
                fits = o.checked_add(0x2000).map_or(false, |x| x <= src_len);
            }
            SrcLen(l) => {
                s.pages_from_source[0].4 = *l;
                fits = l % PAGE == 0 && *l <= src_len;
            }
            DirtyAddr(a) => {
                s.dirty_pages[di].0 = *a;
                fits = a % PAGE == 0 && a.checked_add(s.dirty_pages[di].2.len() as u64).map_or(false, |x| x <= top);
            }
            DirtyLen(l) => {
                s.dirty_pages[di].2.resize(*l, 1);
                fits = l % PAGE as usize == 0;
            }
        }
        let mut e2 = make(ek, &Opt::new(7, 2, MEM));
        let mut c2 = Ctx2::new(src());
        let r = e2.resume2(&mut c2, &s);
        st.states += 1;
        st.transitions += 1;
        st.traces += 1;
        if r.is_ok() != fits {
            return Err(format!("{:?}: snapshot with {:?} gave {:?}, it {}", ek, mu, r, if fits { "fits" } else { "does not fit" }));
        }
        if let Version(_) = mu {
            if !matches!(&r, Err(x) if kind(x) == Kind::Version) {
                return Err(format!("{:?}: snapshot with {:?} gave {:?}", ek, mu, r));
            }
        }
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    let _ = Bytes::new();
    malformed(r);
    fields(r, Ver::V2);
    every_page(r, Ver::V2);
    page_runs(r, Ver::V2);
    crate::scale::large(r, crate::scale::Large::Snap2);
    let mut wide = ops();
    wide.extend(rare());
    r.bound("histories of 2 operations from 47 and 3 (thorough: 4) from 29 - mappings, program marks, host and guest writes, initialisations, flag changes, untracking, save and restore - each saved, restored on another engine and saved again; programs of 2 (thorough: 3) instructions stopped at every boundary; snapshots with every field out of place");
    histories(r, "histories of 2, wide alphabet", wide, 2, &[EK::I64Flat, EK::I64Sparse, EK::T64Flat, EK::AsmSimple, EK::AsmDyn, EK::AsmStep, EK::I32Flat, EK::I32Sparse]);
    if q {
        histories(r, "histories of 3", ops(), 3, &[EK::I64Flat, EK::I64Sparse, EK::AsmSimple, EK::I32Flat]);
    } else {
        histories(r, "histories of 3", ops(), 3, &[EK::I64Flat, EK::I64Sparse, EK::AsmSimple, EK::AsmDyn, EK::I32Flat]);
        histories(r, "histories of 4", ops(), 4, &[EK::AsmSimple]);
    }
    let mut plans = vec![];
    for (name, xlen, isa, version) in [("rv64 v2", 64, 7u8, 2u32), ("rv64 v1", 64, 5, 1), ("rv64 v0", 64, 0, 0), ("rv32 v2", 32, 5, 2)] {
        plans.push(Plan { name: format!("{} pairs", name), ver: Ver::V2, xlen, isa, version, len: 2, targets: if q { 4 } else { 8 } });
        if !q {
            plans.push(Plan { name: format!("{} longer", name), ver: Ver::V2, xlen, isa, version, len: 3, targets: 1 });
        }
    }
    for p in &plans {
        let n = (toks(p.xlen, p.isa).len() as u64).pow(p.len);
        r.phase(&p.name, n, 2, || mk(p), |w, i, st| case(w, p, i, st));
        if p.len == 2 {
            let v = writes(p);
            r.phase(&format!("{}, every kind of write", p.name), v.len() as u64, 2, || mk(p), |w, i, st| program(w, p, &v[i as usize], i, st));
        }
    }
}
