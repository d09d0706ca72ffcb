//! C10: loading ELF files, against an independent reader and loader.
use crate::common::*;
use crate::eng::*;
use crate::fw::*;
use crate::gym::*;
use crate::spec::*;
use ckb_vm::Bytes;

const MEM: u64 = 512 << 10;

// ---------------------------------------------------------------- writing
#[derive(Clone, Debug, Default)]
pub struct Ph {
    pub typ: u32,
    pub flags: u32,
    pub off: u64,
    pub vaddr: u64,
    pub filesz: u64,
    pub memsz: u64,
}
#[derive(Clone, Debug)]
pub struct File {
    pub class: u8,
    pub data: u8,
    pub entry: u64,
    pub phoff: u64,
    pub phnum: u16,
    pub ph: Vec<Ph>,
    pub body: usize,
}
pub const fn ehsize(class: u8) -> usize {
    if class == 1 {
        52
    } else {
        64
    }
}
pub const fn phsize(class: u8) -> usize {
    if class == 1 {
        32
    } else {
        56
    }
}
impl File {
    pub fn new(class: u8, ph: Vec<Ph>) -> File {
        File { class, data: 1, entry: 0x1_0000, phoff: ehsize(class) as u64, phnum: ph.len() as u16, ph, body: 0x1400 }
    }
    /// Headers, program headers, then a body in which every byte depends on its position.
    pub fn bytes(&self) -> Vec<u8> {
        let be = self.data == 2;
        let wide = self.class != 1;
        let mut v = vec![0x7f, b'E', b'L', b'F', self.class, self.data, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
        let put = |v: &mut Vec<u8>, x: u64, n: usize| {
            let b = x.to_le_bytes();
            if be {
                v.extend(b[..n].iter().rev());
            } else {
                v.extend(&b[..n]);
            }
        };
        let a = if wide { 8 } else { 4 };
        put(&mut v, 2, 2);
        put(&mut v, 243, 2);
        put(&mut v, 1, 4);
        put(&mut v, self.entry, a);
        put(&mut v, self.phoff, a);
        put(&mut v, 0, a);
        put(&mut v, 0, 4);
        put(&mut v, ehsize(self.class) as u64, 2);
        put(&mut v, phsize(self.class) as u64, 2);
        put(&mut v, self.phnum as u64, 2);
        put(&mut v, 0, 2);
        put(&mut v, 0, 2);
        put(&mut v, 0, 2);
        for p in &self.ph {
            put(&mut v, p.typ as u64, 4);
            if wide {
                put(&mut v, p.flags as u64, 4);
            }
            put(&mut v, p.off, a);
            put(&mut v, p.vaddr, a);
            put(&mut v, p.vaddr, a);
            put(&mut v, p.filesz, a);
            put(&mut v, p.memsz, a);
            if !wide {
                put(&mut v, p.flags as u64, 4);
            }
            put(&mut v, 0x1000, a);
        }
        while v.len() < self.body {
            let k = v.len() as u32;
            v.push((k.wrapping_mul(0x9e3779b9) >> 13) as u8 | 1);
        }
        v
    }
}

// ---------------------------------------------------------------- reading
pub struct Parsed {
    pub entry: u64,
    pub ph: Vec<Ph>,
}
/// What the file says, or None when it is malformed. Second: the byte order is not ours.
pub fn parse(b: &[u8]) -> (Option<(u32, Parsed)>, bool) {
    let rd = |o: u64, n: u64, be: bool| -> Option<u64> {
        let e = o.checked_add(n)?;
        if e > b.len() as u64 {
            return None;
        }
        let mut v = 0;
        for k in 0..n {
            let byte = b[(o + if be { k } else { n - 1 - k }) as usize] as u64;
            v = v << 8 | byte;
        }
        Some(v)
    };
    let be = b.get(5) == Some(&2);
    let r = (|| {
        if b.get(..4)? != b"\x7fELF" || !matches!(b[4..].first()?, 1 | 2) || !matches!(b.get(5)?, 1 | 2) {
            return None;
        }
        let class = b[4];
        let a = if class == 1 { 4 } else { 8 };
        rd(0, ehsize(class) as u64, be)?;
        let entry = rd(24, a, be)?;
        let phoff = rd(24 + a, a, be)?;
        let phnum = rd(24 + 3 * a + 4 + 4, 2, be)?;
        if phnum > (b.len() / phsize(class)) as u64 {
            return None;
        }
        let mut ph = vec![];
        for k in 0..phnum {
            let o = phoff.checked_add(k * phsize(class) as u64)?;
            rd(o, phsize(class) as u64, be)?;
            let (f, rest) = if class == 1 { (o + 24, o + 4) } else { (o + 4, o + 8) };
            ph.push(Ph { typ: rd(o, 4, be)? as u32, flags: rd(f, 4, be)? as u32, off: rd(rest, a, be)?, vaddr: rd(rest + a, a, be)?, filesz: rd(rest + 3 * a, a, be)?, memsz: rd(rest + 4 * a, a, be)? });
        }
        Some((if class == 1 { 32 } else { 64 }, Parsed { entry, ph }))
    })();
    (r, be)
}

/// Result of loading on a machine with the given memory.
pub enum Want {
    /// entry, bytes reported
    Ok(u64, u64),
    /// refused before anything was placed
    Refused,
    /// refused while placing a segment
    Partial,
    /// outside what is specified: only agreement between engines is required
    Any,
}
pub fn load(m: &mut SMem, file: &[u8], xlen: u32, version: u32) -> Want {
    let (p, be) = parse(file);
    let (bits, p) = match p {
        None => return Want::Refused,
        Some(p) => p,
    };
    if bits != xlen {
        return Want::Refused;
    }
    if be {
        return Want::Any;
    }
    let mut total = 0u64;
    let mut any = false;
    for s in p.ph.iter().filter(|s| s.typ == 1) {
        match s.off.checked_add(s.filesz) {
            Some(e) if e <= file.len() as u64 => {}
            _ => return Want::Refused,
        }
        // unreadable, or writable and executable
        if s.flags & 4 == 0 || s.flags & 3 == 3 {
            return Want::Refused;
        }
        total += s.filesz;
        any |= s.memsz.checked_add(s.vaddr % PAGE).and_then(|x| x.checked_add(PAGE - 1)).is_none();
    }
    if any {
        // a segment larger than the address space
        return Want::Any;
    }
    for s in p.ph.iter().filter(|s| s.typ == 1) {
        let pad = s.vaddr % PAGE;
        let base = s.vaddr - pad;
        let size = (s.memsz + pad).div_ceil(PAGE) * PAGE;
        if base > m.size || size > m.size || base + size > m.size {
            return Want::Partial;
        }
        let pages = base / PAGE..(base + size) / PAGE;
        if pages.clone().any(|q| m.flags[q as usize] & FREEZED != 0) {
            return Want::Partial;
        }
        let n = s.filesz.min(size - pad);
        for q in pages.clone() {
            m.pages[q as usize] = None;
        }
        m.poke(base + pad, &file[s.off as usize..(s.off + n) as usize]);
        let f = if s.flags & 1 != 0 {
            EXEC | FREEZED
        } else if s.flags & 2 != 0 && version >= 1 {
            0
        } else {
            FREEZED
        };
        for q in pages.clone() {
            m.flags[q as usize] |= f | DIRTY;
        }
        // version 0 clears the padding once more, which is refused on executable pages
        if version == 0 && pad > 0 && pages.clone().next().map_or(true, |q| m.flags[q as usize] & EXEC != 0) {
            return Want::Partial;
        }
    }
    Want::Ok(p.entry, total)
}

struct W {
    engs: Vec<Box<dyn Eng>>,
}
const KS: &[EK] = &[EK::I64Flat, EK::I64Sparse, EK::AsmSimple, EK::I32Flat, EK::I32Sparse];
fn mk(version: u32) -> W {
    W { engs: KS.iter().map(|k| make(*k, &Opt::new(0, version, MEM as usize))).collect() }
}
/// Load `file` everywhere; `twice`: a program was loaded before.
fn check(w: &mut W, files: &[&[u8]], version: u32, st: &mut Stats, show: &dyn Fn() -> String) -> CaseRes {
    check_way(w, files, version, st, show, false, true)?;
    // and in one of the other ways
    let h = files.iter().flat_map(|f| f.iter()).fold(files[0].len() as u64, |h, b| h.wrapping_mul(31).wrapping_add(*b as u64)) >> 7;
    let (parsed, update_pc) = [(true, true), (false, false), (true, false)][h as usize % 3];
    check_way(w, files, version, st, show, parsed, update_pc)
}
fn check_way(w: &mut W, files: &[&[u8]], version: u32, st: &mut Stats, show: &dyn Fn() -> String, parsed: bool, update_pc: bool) -> CaseRes {
    let mut outcome: [Option<bool>; 2] = [None, None];
    let mut first = [true, true];
    let mut model: Vec<(SMem, Want)> = vec![];
    for xlen in [64, 32] {
        let mut m = SMem::new(MEM);
        let mut want = Want::Ok(0, 0);
        for f in files {
            want = load(&mut m, f, xlen, version);
            if !matches!(want, Want::Ok(..)) {
                break;
            }
        }
        model.push((m, want));
    }
    for e in w.engs.iter_mut() {
        let e = e.as_mut();
        let ek = e.ek();
        let xi = (ek.xlen() == 32) as usize;
        e.reset(1 << 30).unwrap();
        for k in 1..32 {
            e.set_x(k, k as u64 * 3);
        }
        e.set_pc(0x55550);
        let mut r = Ok(0);
        for f in files {
            r = e.load_file(&Bytes::copy_from_slice(f), parsed, update_pc);
            if r.is_err() {
                break;
            }
        }
        st.traces += 1;
        let bad = |m: String| Err(format!("{} version {} {:?}{}{}: {}", show(), version, ek, if parsed { " from metadata" } else { "" }, if update_pc { "" } else { " keeping the pc" }, m));
        let (m, want) = &model[xi];
        match want {
            Want::Ok(entry, total) => {
                match &r {
                    Ok(t) if t == total => {}
                    r => return bad(format!("loading gave {:?} instead of {}", r, total)),
                }
                if !update_pc {
                    if e.pc() != 0x55550 {
                        return bad(format!("the program counter moved to {:#x}", e.pc()));
                    }
                } else if e.pc() != if xi == 1 { *entry & 0xffff_ffff } else { *entry } {
                    return bad(format!("entry {:#x} instead of {:#x}", e.pc(), entry));
                }
            }
            Want::Refused | Want::Partial => {
                if r.is_ok() {
                    return bad(format!("loading gave {:?} instead of an error", r));
                }
                if e.pc() != 0x55550 && files.len() == 1 {
                    return bad("the program counter changed although the file was refused".into());
                }
            }
            Want::Any => {
                if first[xi] {
                    first[xi] = false;
                    outcome[xi] = Some(r.is_ok());
                } else if outcome[xi] != Some(r.is_ok()) {
                    return bad(format!("loading gave {:?}, other engines disagree", r));
                }
            }
        }
        if e.cycles() != 0 || e.max_cycles() != 1 << 30 {
            return bad(format!("cycles {} of {}", e.cycles(), e.max_cycles()));
        }
        if (1..32).any(|k| e.x()[k] != k as u64 * 3) {
            return bad("registers changed".into());
        }
        if !matches!(want, Want::Any | Want::Partial) {
            let mut pages: Vec<u64> = (0..MEM / PAGE).filter(|p| m.pages[*p as usize].is_some() || m.flags[*p as usize] != 0).collect();
            let near: Vec<u64> = pages.iter().flat_map(|p| [p.wrapping_sub(1), p + 1]).filter(|p| *p < MEM / PAGE).collect();
            pages.extend(near);
            pages.sort_unstable();
            pages.dedup();
            if let Err(x) = cmp_mem(e, m, &pages, 0) {
                return bad(x);
            }
        }
        st.bump(match want { Want::Ok(..) => "loaded", Want::Refused => "refused", Want::Partial => "refused while placing", Want::Any => "unspecified" }, 1);
    }
    st.states += files.len() as u64 + 1;
    st.transitions += files.len() as u64;
    st.sample(|| show());
    Ok(())
}

fn base(class: u8) -> File {
    File::new(
        class,
        vec![
            Ph { typ: 1, flags: 5, off: 0x200, vaddr: 0x1_0010, filesz: 0x812, memsz: 0x900 },
            Ph { typ: 4, flags: 6, off: 0x40, vaddr: 0x7000, filesz: 0x20, memsz: 0x20 },
            Ph { typ: 1, flags: 6, off: 0xb00, vaddr: 0x3_f800, filesz: 0x805, memsz: 0x1900 },
        ],
    )
}

/// One segment's fields over their interesting values, with a fixed second segment.
fn segments(r: &mut Run, class: u8, version: u32) {
    let q = r.quick();
    let vaddr: Vec<u64> = {
        let mut v = vec![0, 1, 0x800, 0x1000, 0x1ffc, 0x3_e000, 0x3_f000, 0x3_f001, 0x4_0000, MEM - 0x1000, MEM - 1, MEM, MEM + 1, MEM + 0x1000, 0xffff_f000, 0xffff_ffff, 0x7fff_ffff];
        if class == 2 {
            v.extend([0x1_0000_0000, u64::MAX, u64::MAX - 0xfff, 1 << 63]);
        }
        v
    };
    let fsz: Vec<u64> = vec![0, 1, 0x10, 0xfff, 0x1000, 0x1001, 0x1200];
    let msz: Vec<u64> = {
        let mut v = vec![0, 1, 0xfff, 0x1000, 0x1001, 0x2000, 0x4_1000, MEM, MEM - 0x1000, MEM + 1, 0xffff_0000, 0xffff_ffff];
        if class == 2 {
            v.extend([0x1_0000_0000, 1 << 63, u64::MAX - 0x2000]);
        }
        v
    };
    let offs: Vec<u64> = if q { vec![0x200, 0x3ff, 0x13ff] } else { vec![0, 0x200, 0x3ff, 0x1200, 0x13ff, 0x1400, 0x1401] };
    let flags: Vec<u32> = vec![4, 5, 6, 7, 1, 2, 0, 0xf000_0004];
    let second: Vec<Option<Ph>> = vec![
        None,
        Some(Ph { typ: 1, flags: 6, off: 0x300, vaddr: 0x1000, filesz: 0x100, memsz: 0x100 }),
        Some(Ph { typ: 1, flags: 5, off: 0x300, vaddr: 0x3_f000, filesz: 0x1000, memsz: 0x1000 }),
        Some(Ph { typ: 1, flags: 4, off: 0x300, vaddr: MEM - 0x1fff, filesz: 0xff, memsz: 0x100 }),
    ];
    let rx = [vaddr.len(), fsz.len(), msz.len(), offs.len(), flags.len(), 2 * second.len()].map(|x| x as u64);
    let n: u64 = rx.iter().product();
    r.phase(&format!("segment fields, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), n, 500, || mk(version), |w, i, st| {
        let d = digits(i, &rx);
        let s = Ph { typ: 1, flags: flags[d[4]], off: offs[d[3]], vaddr: vaddr[d[0]], filesz: fsz[d[1]], memsz: msz[d[2]] };
        let mut ph = vec![s];
        if let Some(t) = &second[d[5] / 2] {
            ph.insert(d[5] % 2, t.clone());
        } else if d[5] % 2 == 1 {
            return Ok(());
        }
        let f = File::new(class, ph);
        let b = f.bytes();
        check(w, &[&b], version, st, &|| format!("{:x?}", f.ph))
    });
}

/// Every byte of the headers replaced by every value; every prefix of the file.
fn bytes(r: &mut Run, class: u8, version: u32) {
    let f = base(class).bytes();
    let hdr = ehsize(class) + 3 * phsize(class);
    r.phase(&format!("header bytes, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), hdr as u64 * 256, 500, || mk(version), |w, i, st| {
        let mut b = f.clone();
        let (at, v) = ((i / 256) as usize, i as u8);
        b[at] = v;
        check(w, &[&b], version, st, &|| format!("{} bits with byte {:#x} = {:#x}", if class == 1 { 32 } else { 64 }, at, v))
    });
    r.phase(&format!("truncated files, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), f.len() as u64 + 1, 100, || mk(version), |w, i, st| {
        check(w, &[&f[..i as usize]], version, st, &|| format!("first {} bytes", i))
    });
}

/// Pairs of header fields over their interesting values.
fn fields(r: &mut Run, class: u8, version: u32) {
    let top: u64 = if class == 1 { 0xffff_ffff } else { u64::MAX };
    let addr = [0, 1, 0x34, 0x40, 0x1000, 0x13c0, 0x1400, 0x1401, top / 2 + 1, top - 0xfff, top];
    // (field, value)
    let mut alts: Vec<(u32, u64)> = vec![];
    for v in [0u64, 1, 2, 3, 0xff] {
        alts.push((0, v));
        alts.push((1, v));
    }
    for v in addr {
        alts.push((2, v));
        alts.push((3, v));
    }
    for v in [0u64, 1, 2, 3, 4, 5, 0x50, 0xa0, 0xffff] {
        alts.push((4, v));
    }
    for p in 0..3u32 {
        for v in [0u64, 1, 2, 4, 6, 0x6474_e551, 0xffff_ffff] {
            alts.push((10 * p + 10, v));
        }
        for v in [0u64, 1, 2, 3, 4, 5, 6, 7, 0xffff_ffff] {
            alts.push((10 * p + 11, v));
        }
        for v in addr {
            alts.push((10 * p + 12, v));
            alts.push((10 * p + 14, v));
        }
        for v in [0, 1, 0xfff, 0x1000, 0x1_0000, 0x1_0fff, 0x3_f000, 0x4_0000, MEM - 0x1000, MEM - 1, MEM, top - 0xfff, top] {
            alts.push((10 * p + 13, v));
            alts.push((10 * p + 15, v));
        }
    }
    let n = alts.len() as u64;
    r.phase(&format!("pairs of header fields, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), n * n, 500, || mk(version), |w, i, st| {
        let (a, b) = (alts[(i % n) as usize], alts[(i / n) as usize]);
        if a.0 > b.0 || a.0 == b.0 && a.1 != b.1 {
            return Ok(());
        }
        let mut f = base(class);
        for (k, v) in [a, b] {
            match k {
                0 => f.class = v as u8,
                1 => f.data = v as u8,
                2 => f.entry = v,
                3 => f.phoff = v,
                4 => f.phnum = v as u16,
                k => {
                    let p = &mut f.ph[(k / 10 - 1) as usize];
                    match k % 10 {
                        0 => p.typ = v as u32,
                        1 => p.flags = v as u32,
                        2 => p.off = v,
                        3 => p.vaddr = v,
                        4 => p.filesz = v,
                        _ => p.memsz = v,
                    }
                }
            }
        }
        let img = f.bytes();
        check(w, &[&img], version, st, &|| format!("{} bits, fields {:x?} {:x?}", if class == 1 { 32 } else { 64 }, a, b))
    });
}

/// Lists of segments (up to 3) over a small set, loaded one file after another as well.
fn lists(r: &mut Run, class: u8, version: u32) {
    let mut segs = vec![];
    for (vaddr, filesz, memsz) in [(0x1000u64, 0x1000u64, 0x1000u64), (0x1800, 0x900, 0x1000), (0x2000, 0x10, 0x3000), (0x3ff0, 0x20, 0x20), (0x3_f000, 0x1100, 0x2000), (0x5000, 0, 0)] {
        for flags in [4, 5, 6] {
            segs.push(Ph { typ: 1, flags, off: 0x211, vaddr, filesz, memsz });
        }
    }
    segs.push(Ph { typ: 2, flags: 6, off: 0x200, vaddr: 0x1000, filesz: 0x1000, memsz: 0x1000 });
    let n = segs.len() as u64;
    r.phase(&format!("lists of 3 segments, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), n * n * n * 3, 200, || mk(version), |w, i, st| {
        let d = digits(i, &[n, n, n, 3]);
        let s: Vec<Ph> = d[..3].iter().map(|k| segs[*k].clone()).collect();
        // one file, or two
        let cut = [3, 1, 2][d[3]];
        let a = File::new(class, s[..cut].to_vec());
        let b = File::new(class, s[cut..].to_vec());
        let (ab, bb) = (a.bytes(), b.bytes());
        let show = || format!("{:x?} then {:x?}", a.ph, b.ph);
        if cut == 3 {
            check(w, &[&ab], version, st, &show)
        } else {
            check(w, &[&ab, &bb], version, st, &show)
        }
    });
}

/// Long program header tables, and long segments.
fn many(r: &mut Run, class: u8, version: u32) {
    let mut counts: Vec<usize> = (0..=if r.quick() { 72 } else { 124 }).collect();
    counts.extend([127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000]);
    let n = counts.len() as u64;
    r.phase(&format!("long header tables, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), n * 6, 4, || mk(version), |w, i, st| {
        let (n, how) = (counts[(i % n) as usize], i / n);
        let body = 0x200 + n * phsize(class);
        let mut left = 124;
        let ph: Vec<Ph> = (0..n)
            .map(|k| {
                let typ = match how {
                    0 | 5 => 1,
                    1 => (k + 1 == n) as u32,
                    2 => (k == 0) as u32,
                    3 => [1, 4][k % 2],
                    _ => [2, 3, 1, 6, 7, 0x6fff_ffff][k % 6],
                };
                // a page each as long as there are any, then all on the same writable page
                let page = if how != 5 && left > 1 { 125 - left } else { 124 };
                left -= (left > 1 && typ == 1) as u64;
                let flags = if page == 124 { 6 } else { [5, 4, 6][k % 3] };
                Ph { typ, flags, off: (body + k % 64 * 9) as u64, vaddr: page * PAGE + (k % 7) as u64 * 16, filesz: 16, memsz: 32 }
            })
            .collect();
        let mut f = File::new(class, ph);
        f.body = body + 0x400;
        check(w, &[&f.bytes()], version, st, &|| format!("{} program headers, pattern {}", n, how))
    });
    // segments of every number of pages
    r.phase(&format!("long segments, {} bits, version {}", if class == 1 { 32 } else { 64 }, version), 124 * 6 * 3, 4, || mk(version), |w, i, st| {
        let d = digits(i, &[124, 6, 3]);
        let pages = d[0] as u64;
        let (pad, short) = [(0, 0), (0, 1), (1, 0), (0xfff, 0), (0x123, 0xfff), (0, 0x1000)][d[1]];
        let memsz = (pages + 1) * PAGE - pad;
        let filesz = memsz.saturating_sub(short) / [1, 2, 1][d[2]];
        let mut f = File::new(class, vec![Ph { typ: 1, flags: [5, 6, 4][d[2]], off: 0x235, vaddr: 0x2000 + pad, filesz, memsz }]);
        f.body = 0x300 + filesz as usize;
        check(w, &[&f.bytes()], version, st, &|| format!("{:x?}", f.ph))
    });
}

pub fn run(r: &mut Run) {
    crate::scale::large_load(r, false);
    let q = r.quick();
    r.bound("program header tables of every length up to 72 (thorough: 124) and around powers of two up to 1000; segments of every length up to 124 pages");
    r.bound("files of 2 classes on machines of both widths and all versions: every value of every header byte of a 3-segment file, every truncation, all pairs of header fields over 5 to 13 values each, all combinations of the fields of a segment over 7 to 21 values each with and without a second segment, all lists of 3 segments from 19 in one or two files; each file loaded directly and also from separately parsed metadata or keeping the program counter; 512 KB of memory");
    r.assume("segments whose size wraps around the address space, and big-endian files: only agreement between engines and absence of panics is required");
    for version in 0..3 {
        for class in [1, 2] {
            lists(r, class, version);
            many(r, class, version);
            fields(r, class, version);
            bytes(r, class, version);
            if !q || version == 2 || (version == 0 && class == 2) {
                segments(r, class, version);
            }
        }
    }
}
