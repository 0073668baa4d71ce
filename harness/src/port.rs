//! C23: sketches saved by one build and reloaded by another.
//!
//! Without input, every sketch is saved (and lives on); the lines given to the
//! second phase, `scenario j original format data`, are reloaded and live on
//! the same way.
use crate::gen::*;
use crate::hashers::Rng;
use crate::memo::{precisions, random_sketch, some_atoms};
use crate::sk::*;
use crate::world::*;

const PER: usize = 4;

fn future(s: &mut Sc, k: u32, kind: Kind, p: u8, atoms: &[Atom], rng: &mut Rng) {
    s.cnt(k);
    for _ in 0..rng.range(1, 3) {
        let h = edge_hash(kind, p, rng);
        s.h(k, h);
    }
    s.cnt(k);
    let t = s.mk(kind, p);
    s.mrg(t, k);
    s.cnt(t);
    let at = rng.pick(atoms).clone();
    s.ins(k, &[at], Order::Desc);
    s.cnt(k);
    let ms = masks(kind, p, &buckets_of(kind, p, atoms, rng, 6), 6, rng);
    s.probe(&[k], &ms);
}

pub fn port(kind: Kind, seed: u64, per_p: u64, input: &str) {
    for p in precisions(kind) {
        for i in 0..if p > 14 { per_p.min(2) } else { per_p } {
            if !mine(p, i) {
                continue;
            }
            let salt = seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x23;
            let mut rng = Rng::new(salt);
            let id = format!("port-{}-p{}-{}", if kind == Kind::Plus { "plus" } else { "pf" }, p, i);
            let mut s = Sc::new(&id, rng.next());
            let mut pool = vec![Atom::H(edge_hash(kind, p, &mut rng))];
            for l in [0, 1, *rng.pick(&[2, 3, 4])] {
                pool.extend(some_atoms(kind, p, l, &format!("l{}", l), &mut rng));
            }
            let mut own = Vec::new();
            for j in 0..PER {
                let mut mine = Vec::new();
                for a in &pool {
                    if j + 1 < PER && rng.chance(40) {
                        mine.push(a.clone());
                    }
                }
                // the last one has seen one element, or none
                if j + 1 == PER && rng.chance(50) {
                    mine.push(pool[0].clone());
                }
                own.push((*rng.pick(&[Ty::U64, Ty::Str, Ty::Bytes, Ty::Slice]), rng.next(), rng.below(3), mine, j));
            }
            if input.is_empty() {
                for (ty, key, fmt, atoms, j) in own {
                    let mut r1 = Rng::new(salt ^ 77 ^ ((j as u64) << 50));
                    let k = if j + 1 < PER {
                        random_sketch(&mut s, kind, p, &atoms, Some((ty, key)), &mut r1)
                    } else {
                        let k = s.make_keyed(kind, ty, p, key).unwrap_or(0);
                        s.ins(k, &atoms, Order::Asc);
                        k
                    };
                    s.save(k, [0, 1, 6][fmt as usize], j);
                    future(&mut s, k, kind, p, &pool, &mut Rng::new(salt ^ (j as u64)));
                }
            } else {
                s.number_from(500_000);
                for line in input.lines() {
                    let w: Vec<&str> = line.split(' ').collect();
                    if w[0] != id {
                        continue;
                    }
                    let (ty, key, _, _, j) = &own[w[1].parse::<usize>().unwrap()];
                    let data: Vec<u8> = (0..w[4].len() / 2)
                        .map(|i| u8::from_str_radix(&w[4][2 * i..2 * i + 2], 16).unwrap())
                        .collect();
                    let k = s.load(kind, *ty, p, *key, w[2].parse().unwrap(), w[3].parse().unwrap(), &data);
                    if k != 0 {
                        future(&mut s, k, kind, p, &pool, &mut Rng::new(salt ^ (*j as u64)));
                    }
                }
            }
            s.end();
        }
    }
}
