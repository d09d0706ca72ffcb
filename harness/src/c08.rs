//! C08: version-1 snapshots at every boundary, between all engines.

use crate::eng::*;
use crate::fw::*;
use crate::snap::*;
use crate::spec::*;

fn versions(r: &mut Run) {
    let mut cfgs = vec![];
    for v in 0..3u32 {
        for ek in ALL64.iter().chain(ALL32) {
            cfgs.push((v, *ek));
        }
    }
    let n = cfgs.len() as u64;
    r.phase("snapshots for another version", n * n, 50, || (), |_, i, st| {
        let (v1, k1) = cfgs[(i % n) as usize];
        let (v2, k2) = cfgs[(i / n) as usize];
        let mut e1 = make(k1, &Opt::new(0, v1, MEM));
        e1.set_x(5, 0x1234);
        e1.set_pc(0x4000);
        e1.set_lr(0x8000);
        e1.store_bytes(D0, &[7]).unwrap();
        let s = e1.snap1().map_err(|e| format!("{:?}", e))?;
        let mut e2 = make(k2, &Opt::new(0, v2, MEM));
        let r = e2.resume1(&s);
        st.traces += 2;
        st.states += 2;
        st.transitions += 2;
        let fine = e2.x()[5] == 0x1234 && e2.pc() == 0x4000 && e2.lr() == 0x8000 && e2.ld(1, D0).unwrap() == 7;
        let clean = e2.x() == [0; 32] && e2.pc() == 0 && e2.ld(1, D0).unwrap() == 0 && e2.flag(D0 / PAGE).unwrap() == 0;
        if v1 == v2 && !(r.is_ok() && fine) || v1 != v2 && !(matches!(&r, Err(e) if kind(e) == Kind::Version) && clean) {
            return Err(format!("snapshot of a {:?} of version {} resumed on a {:?} of version {}: {:?}", k1, v1, k2, v2, r));
        }
        Ok(())
    });
}

pub fn run(r: &mut Run) {
    let q = r.quick();
    versions(r);
    fields(r, Ver::V1);
    every_page(r, Ver::V1);
    page_runs(r, Ver::V1);
    crate::scale::large(r, crate::scale::Large::Snap1);
    r.bound("programs of 2 (thorough: 3) instructions from an alphabet of 15 to 23 plus exit, on every engine stopped at every boundary it can stop at (limits, yields), saved, restored on every engine, stopped and saved a second time; all pairs of versions");
    let mut plans = vec![];
    for (name, xlen, isa, version) in [("rv64 v2", 64, 7u8, 2u32), ("rv64 v1", 64, 5, 1), ("rv64 v0", 64, 0, 0), ("rv32 v2", 32, 5, 2), ("rv32 v1", 32, 4, 1)] {
        plans.push(Plan { name: format!("{} pairs", name), ver: Ver::V1, xlen, isa, version, len: 2, targets: 8 });
        if !q {
            plans.push(Plan { name: format!("{} longer", name), ver: Ver::V1, xlen, isa, version, len: 3, targets: 1 });
        }
    }
    for p in &plans {
        let n = (toks(p.xlen, p.isa).len() as u64).pow(p.len);
        r.phase(&p.name, n, 2, || mk(p), |w, i, st| case(w, p, i, st));
        if p.len == 2 {
            let v = writes(p);
            r.phase(&format!("{}, every kind of write", p.name), v.len() as u64, 2, || mk(p), |w, i, st| program(w, p, &v[i as usize], i, st));
        }
    }
}
