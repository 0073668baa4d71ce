//! C20: sketches used from several threads at once, the shared ones read only.
//!
//! The logs of the threads are written one after the other: the operations of
//! different threads change different sketches and the shared ones do not
//! change meanwhile, so every order of them is the same behaviour (see
//! MCConc.tla).
use crate::gen::*;
use crate::hashers::Rng;
use crate::memo::precisions;
use crate::sk::*;
use crate::world::*;

fn usable_by_threads<T: Send + Sync>() {}

pub fn conc(kind: Kind, seed: u64, rounds: u64) {
    usable_by_threads::<Sk>();
    for p in precisions(kind) {
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x20);
            let name = if kind == Kind::Plus { "plus" } else { "pf" };
            let mut s = Sc::new(&format!("conc-{}-p{}-{}", name, p, i), rng.next());
            // shared sketches in several forms, some with unprocessed entries
            let l = limit(p) as usize;
            let mut pool: Vec<Atom> = Vec::new();
            for (q, n) in [1usize, 3, l / 100, l / 9 + 1, l / 3 + 2, 2 * l + 9, 7 * l].iter().enumerate() {
                let st = *rng.pick(&STYLES);
                let v = hashes(kind, p, if q > 3 { Style::Uniform } else { st }, (*n).max(1), &mut rng);
                pool.push(x(format!("c{}", q), v));
            }
            let mut shared = Vec::new();
            for j in 0..4 {
                let k = s.mk(kind, p);
                let n = 1 + rng.below(3) as usize;
                for _ in 0..n {
                    let hi = if j == 3 { 7 } else { 5 };
                    let a = pool[rng.below(hi) as usize].clone();
                    s.ins(k, &[a], Order::Shuffled);
                    if rng.chance(30) {
                        s.cnt(k);
                    }
                }
                shared.push(k);
            }
            // the same program, in another order and with more around it, for each thread
            let threads = 4;
            let mut plans = Vec::new();
            for t in 0..threads {
                let mut plan = vec![Cmd::New(0), Cmd::New(1), Cmd::CloneShared(shared[t % 4], 2)];
                let mut common: Vec<Cmd> = Vec::new();
                for a in &pool {
                    common.push(Cmd::Ins(0, a.clone(), rng.next()));
                }
                for k in &shared {
                    common.push(Cmd::MrgShared(0, *k));
                }
                rng.shuffle(&mut common);
                for c in common {
                    plan.push(c);
                    let (a, b) = (rng.below(3) as usize, rng.below(3) as usize);
                    match rng.below(7) {
                        0 | 1 => plan.push(Cmd::Cnt(rng.below(3) as usize)),
                        2 => plan.push(Cmd::Ins(1 + a % 2, pool[rng.below(7) as usize].clone(), rng.next())),
                        3 => plan.push(Cmd::MrgShared(1 + a % 2, *rng.pick(&shared))),
                        4 if a != b && b != 0 => plan.push(Cmd::MrgOwn(b, a)),
                        5 => plan.push(Cmd::ReloadShared(*rng.pick(&shared), 1 + a % 2, rng.below(FORMATS) as u8)),
                        _ => {}
                    }
                }
                for k in 0..3 {
                    plan.push(Cmd::Cnt(k));
                }
                plans.push(plan);
            }
            let own = s.parallel(kind, p, &shared, plans, i % 2 == 1);
            for k in shared.iter().chain(own.iter()) {
                s.cnt(*k);
            }
            let at = buckets_of(kind, p, &pool, &mut rng, 10);
            let ms = masks(kind, p, &at, 2, &mut rng);
            for k in shared.iter().chain(own.iter().take(4)) {
                let c = s.control(*k);
                s.probe(&[*k, c], &ms);
            }
            s.end();
        }
    }
}

/// Every thread does the same with the same shared sketches, each step at the
/// same moment: the shared ones have just been written and never been read.
pub fn hot(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x4020);
            let name = if kind == Kind::Plus { "plus" } else { "pf" };
            let mut s = Sc::new(&format!("hot-{}-p{}-{}", name, p, i), rng.next());
            let l = limit(p) as usize;
            let big = s.mk(kind, p);
            let v = hashes(kind, p, Style::Uniform, (2 * l + 9).min(120_000), &mut rng);
            s.ins(big, &[x("big".to_string(), v)], Order::Shuffled);
            if rng.chance(50) {
                s.cnt(big);
            }
            let mut shared = vec![big];
            for q in 0..6 {
                let k = s.mk(kind, p);
                let n = *rng.pick(&[1, l / 9 + 1, l / 5 + 1, l / 3 + 1]);
                let v = hashes(kind, p, *rng.pick(&[Style::Uniform, Style::Uniform, Style::Mixed]), n, &mut rng);
                s.ins(k, &[x(format!("s{}", q), v)], Order::Shuffled);
                if rng.chance(60) {
                    // all of it processed
                    s.cnt(k);
                }
                // and as much as can be that is not
                let n = *rng.pick(&[1, l / 200 + 1, l / 100, l / 100]);
                let v = hashes(kind, p, Style::Uniform, n.max(1), &mut rng);
                s.ins(k, &[x(format!("t{}", q), v)], Order::Shuffled);
                shared.push(k);
            }
            let mut plan = vec![Cmd::CloneShared(big, 0), Cmd::New(1)];
            let mut next = 2;
            for k in &shared[1..] {
                match rng.below(5) {
                    0 => plan.push(Cmd::MrgShared(1, *k)),
                    1 => {
                        plan.push(Cmd::CloneShared(*k, next));
                        plan.push(Cmd::Cnt(next));
                        plan.push(Cmd::MrgOwn(0, next));
                        next += 1;
                    }
                    2 => {
                        plan.push(Cmd::ReloadShared(*k, next, rng.below(FORMATS) as u8));
                        plan.push(Cmd::Cnt(next));
                        plan.push(Cmd::MrgOwn(1, next));
                        next += 1;
                    }
                    _ => {}
                }
                // into a large one, all at once
                plan.push(Cmd::MrgShared(0, *k));
                plan.push(Cmd::Cnt(0));
                if rng.chance(50) {
                    plan.push(Cmd::MrgShared(0, *k));
                    plan.push(Cmd::MrgShared(1, *k));
                    plan.push(Cmd::Cnt(1));
                }
            }
            plan.push(Cmd::Cnt(0));
            plan.push(Cmd::Cnt(1));
            let plans = (0..6).map(|_| plan.clone()).collect();
            let own = s.parallel(kind, p, &shared, plans, true);
            for k in shared.iter().chain(own.iter()) {
                s.cnt(*k);
            }
            s.end();
        }
    }
}

/// The first operations of a process, made by several threads at the same
/// moment (once per process).
pub fn first(kind: Kind, seed: u64) {
    let mut rng = Rng::new(seed ^ 0x2020);
    let range = if rng.chance(15) { 10 } else { 6 };
    let p = 4 + rng.below(range) as u8;
    let name = if kind == Kind::Plus { "plus" } else { "pf" };
    let mut s = Sc::new(&format!("first-{}-p{}-{}", name, p, seed), rng.next());
    let l = limit(p) as usize;
    // volumes that reach one of the forms, and each branch of the estimators
    let m = 1usize << p;
    let sizes = [1usize, 2, l / 9 + 1, 2 * l + 9, m / 2 + 3, 3 * m, 6 * m + 7];
    let n = *rng.pick(&sizes);
    let a = x("c0".to_string(), hashes(kind, p, Style::Uniform, n, &mut rng));
    let b = x("c1".to_string(), hashes(kind, p, Style::Uniform, n / 3 + 1, &mut rng));
    let mut shared = Vec::new();
    if rng.chance(40) {
        let k = s.mk(kind, p);
        s.ins(k, &[b.clone()], Order::Shuffled);
        shared.push(k);
    }
    // the same short program for each thread
    let r = rng.next();
    let mut plan = vec![Cmd::New(0)];
    if rng.chance(80) {
        plan.push(Cmd::Ins(0, a.clone(), r));
    }
    if let Some(k) = shared.first() {
        match rng.below(4) {
            0 => plan.push(Cmd::MrgShared(0, *k)),
            1 => plan.push(Cmd::CloneShared(*k, 1)),
            2 => plan.push(Cmd::ReloadShared(*k, 1, rng.below(FORMATS) as u8)),
            _ => {}
        }
    }
    plan.push(Cmd::Cnt(0));
    plan.push(Cmd::New(2));
    plan.push(Cmd::Ins(2, b, r));
    plan.push(Cmd::MrgOwn(0, 2));
    plan.push(Cmd::Cnt(2));
    plan.push(Cmd::Cnt(0));
    let plans = (0..6)
        .map(|_| plan.clone())
        .collect();
    let own = s.parallel(kind, p, &shared, plans, true);
    for k in shared.iter().chain(own.iter()) {
        s.cnt(*k);
    }
    // the same afterwards, by one thread
    let k = s.mk(kind, p);
    s.ins(k, &[a], Order::Shuffled);
    s.cnt(k);
    s.end();
}

/// Threads that do the same again and again, each with sketches of its own
/// whose estimates differ from the other threads'.
pub fn rounds(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        // larger sketches take their time, and then few rounds are left
        if p > 12 {
            continue;
        }
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x8020);
            let name = if kind == Kind::Plus { "plus" } else { "pf" };
            let mut s = Sc::new(&format!("hot-rounds-{}-p{}-{}", name, p, i), rng.next());
            let (l, m) = (limit(p) as usize, 1usize << p);
            let mut shared = Vec::new();
            for (q, n) in [2 * l + 9, l / 6 + 1, l / 100 + 1].iter().enumerate() {
                let k = s.mk(kind, p);
                let v = hashes(kind, p, Style::Uniform, *n, &mut rng);
                s.ins(k, &[x(format!("s{}", q), v)], Order::Shuffled);
                shared.push(k);
            }
            // every thread is busy with one thing, and so are most of the others
            let what = i % 4;
            let threads = 6;
            let mut plans = Vec::new();
            for t in 0..threads {
                let what = if t == 5 { rng.below(4) } else { what };
                let atom = |q: &str, n: usize, rng: &mut Rng| {
                    x(format!("{}{}", q, t), hashes(kind, p, Style::Uniform, n, rng))
                };
                let few = atom("few", t + 1 + rng.below(3) as usize, &mut rng);
                let some = atom("some", l / 3 + 1 + rng.below(l as u64 / 4 + 1) as usize, &mut rng);
                let many = atom("many", m / 2 + rng.below(m as u64) as usize + 2, &mut rng);
                let more = atom("more", 3 * m + rng.below(m as u64) as usize, &mut rng);
                let r = rng.next();
                let mut plan = Vec::new();
                for (k, a) in [&few, &some, &many, &more].iter().enumerate() {
                    plan.push(Cmd::New(k));
                    plan.push(Cmd::Ins(k, (*a).clone(), r));
                    plan.push(Cmd::Cnt(k));
                }
                let (round, cost): (Vec<Cmd>, usize) = match what {
                    // the same estimate, of a small or of a large sketch
                    0 => {
                        let k = rng.below(4) as usize;
                        (vec![Cmd::Cnt(k)], if k < 2 && kind == Kind::Plus { 5 + l * k / 2 } else { 5 + m })
                    }
                    // estimates of different ones
                    1 => (vec![Cmd::Cnt(0), Cmd::Cnt(2)], 10 + m),
                    // small sketches made, merged and copied
                    2 => (
                        vec![
                            Cmd::New(10),
                            Cmd::Ins(10, few.clone(), r),
                            Cmd::MrgShared(10, shared[2]),
                            Cmd::Cnt(10),
                            Cmd::CloneShared(shared[2], 11),
                            Cmd::MrgOwn(11, 10),
                            Cmd::Cnt(11),
                        ],
                        60 + if kind == Kind::Plus { l / 3 } else { 2 * m },
                    ),
                    // and all kinds
                    _ => (
                        vec![
                            Cmd::CloneShared(*rng.pick(&shared), 10),
                            Cmd::Ins(10, few.clone(), r),
                            Cmd::MrgShared(10, *rng.pick(&shared)),
                            Cmd::Cnt(10),
                            Cmd::MrgOwn(10, rng.below(4) as usize),
                            Cmd::Cnt(10),
                            Cmd::ReloadShared(*rng.pick(&shared), 11, rng.below(FORMATS) as u8),
                            Cmd::Cnt(11),
                            Cmd::Cnt(rng.below(4) as usize),
                        ],
                        400 + 12 * m,
                    ),
                };
                plan.push(Cmd::Rounds(20 + 10_000_000 / cost as u64, round));
                for k in 0..4 {
                    plan.push(Cmd::Cnt(k));
                }
                plans.push(plan);
            }
            let own = s.parallel(kind, p, &shared, plans, true);
            for k in shared.iter().chain(own.iter()) {
                s.cnt(*k);
            }
            s.end();
        }
    }
}
