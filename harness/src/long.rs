//! Long histories: as many operations as a small counter can hold, and one
//! less or more, between an estimate and the next.
use crate::est::*;
use crate::gen::*;
use crate::hashers::Rng;
use crate::memo::precisions;
use crate::sk::*;
use crate::world::*;

/// What the sketch answers, and what one does that is told the same at once.
fn look(s: &mut Sc, k: u32) {
    s.cnt(k);
    s.siz(k);
    let c = s.control(k);
    s.cnt(c);
}

/// So many distinct elements that each change a sketch in the large form,
/// whose registers are `base` or less.
fn stairs(kind: Kind, p: u8, n: u64, base: u32, rng: &mut Rng) -> Option<Vec<Atom>> {
    let m = 1u64 << p;
    let top = if kind == Kind::Plus { 60 - u32::from(p) } else { 32 - u32::from(p) };
    if n.div_ceil(m) + u64::from(base) > u64::from(top) {
        return None;
    }
    let mut v = Vec::new();
    let (mut left, mut r) = (n, base + 1);
    while left > 0 {
        v.push(reg_run(kind, p, 0, left.min(m), r, rng));
        left -= left.min(m);
        r += 1;
    }
    Some(v)
}

pub fn long(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x10);
            let mut s = Sc::new(&format!("long-{}-p{}-{}", kn(kind), p, i), rng.next());
            let small = kind == Kind::Plus && i % 2 == 0;
            let m = 1u64 << p;
            for (j, n) in [256u64, 65536].into_iter().enumerate() {
                let n = n + (i / 2 + j as u64) % 3 - 1;
                let k = s.mk_u(kind, p);
                let known: Vec<Atom>;
                if small {
                    known = vec![Atom::H(prefix_hash(5, 3, rng.next())), Atom::H(prefix_hash(1 << 24, 1, rng.next()))];
                } else if kind == Kind::Plus {
                    // registers of 1 all over turn it large, or many entries
                    force_large_any(&mut s, k, p, &mut rng);
                    known = vec![reg_hash(kind, p, rng.below(m), 1, &mut rng)];
                } else {
                    known = vec![reg_hash(kind, p, rng.below(m), 1, &mut rng), reg_hash(kind, p, rng.below(m), 2, &mut rng)];
                }
                s.ins(k, &known, Order::Asc);
                look(&mut s, k);
                let one = |rng: &mut Rng, r: u32| if small { Atom::H(edge_hash(kind, p, rng)) } else { reg_hash(kind, p, rng.below(m), r, rng) };
                let mut r = 3;
                // insertions, one of which tells something new
                for first in [false, true] {
                    r += 1;
                    let x = one(&mut rng, r);
                    s.ins_calls(k, &known, &[x], n, first);
                    look(&mut s, k);
                }
                let often = if small { n } else { n.min((1 << 26) / m) };
                // estimates, alone and in turns with insertions
                s.cnt_times(k, often, None);
                r += 1;
                let x = one(&mut rng, r);
                let h = x.hashes()[0];
                s.ins(k, &[x], Order::Asc);
                s.cnt_times(k, often, Some(h));
                look(&mut s, k);
                // merges of what is known, then of something new; and both in one number
                let o = s.mk_u(kind, p);
                s.ins(o, &known, Order::Asc);
                s.mrg_times(k, o, often);
                s.cnt(k);
                r += 1;
                let x = one(&mut rng, r);
                let w = s.mk_u(kind, p);
                s.ins(w, &[x], Order::Asc);
                s.mrg_times(k, o, often - 1);
                s.mrg(k, w);
                look(&mut s, k);
                // copies of copies
                if j == 0 || p <= 5 && (small || i % 4 == 1) {
                    let (c, fmt) = (n.min(if j == 0 { 300 } else { 66000 }), rng.below(7) as u8);
                    for f in [None, Some(fmt)] {
                        let c = if f.is_some() && (p > 9 || j > 0) { 256.min(c) >> (p / 6) } else { c };
                        let c = if p > 12 { c / 4 } else { c };
                        let q = s.chain(k, c, f);
                        s.cnt(q);
                        r += 1;
                        let x = one(&mut rng, r);
                        s.ins(q, &[x], Order::Asc);
                        look(&mut s, q);
                    }
                }
                // changes, each by a new element
                let t = s.mk_u(kind, p);
                if small {
                    if 2 * n + 8 < limit(p) {
                        s.ins(t, &known, Order::Asc);
                        s.cnt(t);
                        s.ins(t, &[Atom::run(kind, p, 1000, 1, n, rng.range(1, 40) as u32)], Order::Shuffled);
                        look(&mut s, t);
                    }
                } else {
                    if kind == Kind::Plus {
                        let a = reg_run(kind, p, 0, m, 1, &mut rng);
                        s.ins(t, &[a], Order::Asc);
                        s.cnt(t);
                    }
                    s.cnt(t);
                    if let Some(v) = stairs(kind, p, n, 1, &mut rng) {
                        s.ins(t, &v, Order::Asc);
                        look(&mut s, t);
                    }
                }
            }
            s.end();
        }
    }
}

/// More operations than 32 bits can count.
pub fn longest(seed: u64, bits: u32) {
    let all = [(Kind::Plus, 6u8), (Kind::PF, 6), (Kind::Plus, 11), (Kind::PF, 11)];
    for (j, (kind, p)) in all.into_iter().enumerate() {
        if !mine(j as u8, 0) {
            continue;
        }
        let mut rng = Rng::new(seed ^ u64::from(p) << 32 ^ 0x11);
        let m = 1u64 << p;
        let mut s = Sc::new(&format!("longest-{}-p{}", kn(kind), p), rng.next());
        let k = s.mk_u(kind, p);
        let mut known = vec![reg_hash(kind, p, 1, 7, &mut rng)];
        if kind == Kind::Plus {
            // turns it large
            known.push(reg_run(kind, p, 0, m, 2, &mut rng));
        }
        s.ins(k, &known, Order::Asc);
        look(&mut s, k);
        let x = reg_hash(kind, p, 2, 20, &mut rng);
        let had: u64 = known.iter().map(|a| a.hashes().len() as u64).sum();
        s.ins_calls(k, &known[..1], &[x], (1 << bits) - had, false);
        look(&mut s, k);
        let x = reg_hash(kind, p, 3, 20, &mut rng);
        s.ins(k, &[x], Order::Asc);
        look(&mut s, k);
        s.end();
    }
}
