//! C24: operations that fail for reasons outside the library.
use crate::gen::*;
use crate::hashers::Rng;
use crate::memo::{precisions, random_sketch, some_atoms};
use crate::sk::*;
use crate::world::*;

pub const FAULTS: u64 = 10;

pub fn faults(kind: Kind, seed: u64, per_p: u64) {
    for p in precisions(kind) {
        for i in 0..per_p {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x24);
            let mut s = Sc::new(
                &format!("faults-{}-p{}-{}", if kind == Kind::Plus { "plus" } else { "pf" }, p, i),
                rng.next(),
            );
            let level = i % 7;
            let ga = if level == 6 { Vec::new() } else { some_atoms(kind, p, level, "a", &mut rng) };
            let gb = some_atoms(kind, p, *rng.pick(&[0, 1, 4]), "b", &mut rng);
            let o = random_sketch(&mut s, kind, p, &gb, None, &mut rng);
            // of another precision, in any form: never to be merged
            let q = loop {
                let q = *rng.pick(&[4u8, 5, 6, 7, 8, 10, 12]);
                if q != p {
                    break q;
                }
            };
            let lq = *rng.pick(&[0, 1, 3, 4]);
            let gq = some_atoms(kind, q, lq, "q", &mut rng);
            let other = random_sketch(&mut s, kind, q, &gq, None, &mut rng);
            let mut k = s.mk(kind, p);
            let mut at = ga.iter();
            for round in 0..rng.range(8, 14) {
                // every fault once in a while, in every form and with and
                // without pending entries
                for _ in 0..rng.range(1, 4) {
                    let f = if rng.chance(60) { rng.below(5) } else { rng.below(FAULTS) };
                    s.fail(k, f);
                    if rng.chance(20) {
                        s.cnt(k);
                    }
                    if rng.chance(15) {
                        s.mrg(k, other);
                    }
                    if rng.chance(10) {
                        s.mrg(other, k);
                    }
                }
                if round == 2 || round == 5 {
                    if kind == Kind::Plus && i % 2 == 0 {
                        // as many pending entries as can be
                        s.cnt(k);
                        for _ in 0..(limit(p) / 100).min(60) {
                            let h = rng.next();
                            s.h(k, h);
                            if rng.chance(10) {
                                let f = rng.below(5);
                                s.fail(k, f);
                            }
                        }
                        let f = rng.below(5);
                        s.fail(k, f);
                    }
                }
                match rng.below(8) {
                    0 | 1 => {
                        s.cnt(k);
                    }
                    2 => {
                        if rng.chance(30) {
                            s.mrg(k, o);
                        } else {
                            let f = rng.below(FAULTS);
                            s.fail(o, f);
                        }
                    }
                    3 => {
                        let h = edge_hash(kind, p, &mut rng);
                        s.h(k, h);
                    }
                    4 if rng.chance(40) => {
                        let c = if rng.chance(50) { s.cln(k) } else { s.reload(k, rng.below(FORMATS) as u8) };
                        let f = rng.below(5);
                        s.fail(c, f);
                        k = c;
                    }
                    _ => {
                        if let Some(a) = at.next() {
                            s.ins(k, std::slice::from_ref(a), Order::Shuffled);
                        } else {
                            let h = edge_hash(kind, p, &mut rng);
                            s.h(k, h);
                        }
                    }
                }
            }
            let f = rng.below(5);
            s.fail(k, f);
            let t = s.mk(kind, p);
            let f = rng.below(FAULTS);
            s.fail(t, f);
            s.mrg(t, k);
            s.cnt(t);
            let kc = s.control(k);
            let oc = s.control(o);
            let qc = s.control(other);
            s.cnt(other);
            s.cnt(qc);
            let ms = masks(kind, p, &buckets_of(kind, p, &ga, &mut rng, 12), 6, &mut rng);
            s.probe(&[k, kc], &ms);
            s.probe(&[o, oc], &ms[..1]);
            s.end();
        }
    }
}
