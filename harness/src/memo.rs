//! Scenarios that relate histories to each other (C01-C07, C14).
use crate::est::reg_run;
use crate::gen::*;
use crate::hashers::Rng;
use crate::sk::*;
use crate::world::*;

pub fn precisions(kind: Kind) -> std::ops::RangeInclusive<u8> {
    if kind == Kind::Plus {
        4..=18
    } else {
        4..=16
    }
}

fn kn(kind: Kind) -> &'static str {
    if kind == Kind::Plus {
        "plus"
    } else {
        "pf"
    }
}

/// Hashes that bring a sketch to one of several fill levels.
/// Levels: 0 few, 1 part of the limit, 2 just below, 3 just above, 4 double, 5 far above.
pub fn volume(kind: Kind, p: u8, level: u64, rng: &mut Rng) -> Vec<u64> {
    let style = *rng.pick(&STYLES);
    let m = 1u64 << p;
    let few = rng.range(1, 6) as usize;
    match kind {
        Kind::Plus => {
            let l = limit(p);
            match level {
                0 => hashes(kind, p, style, few, rng),
                1 => {
                    let b = rng.range(1, l);
                    fill(p, style, b, rng)
                }
                2 => fill(p, style, l, rng),
                3 => {
                    let mut v = fill(p, style, l, rng);
                    let mut guard = 0;
                    while enc_len(p, &v) <= l && guard < 40 {
                        let st = if guard > 8 { Style::Uniform } else { style };
                        v.extend(hashes(kind, p, st, few, rng));
                        guard += 1;
                    }
                    v
                }
                4 => hashes(kind, p, style, l as usize, rng),
                _ => hashes(kind, p, Style::Uniform, (if p < 12 { 8 * m } else { 2 * m }) as usize, rng),
            }
        }
        Kind::PF => {
            let n = match level {
                0 => few as u64,
                1 => rng.range(1, m),
                2 => m,
                3 => 2 * m,
                4 => 3 * m,
                _ => if p < 12 { 12 * m } else { 5 * m },
            };
            hashes(kind, p, style, n as usize, rng)
        }
    }
}

/// Interesting buckets: some that the atoms touch.
fn spots(kind: Kind, p: u8, atoms: &[Atom], rng: &mut Rng) -> Vec<u64> {
    buckets_of(kind, p, atoms, rng, 12)
}

fn any_order(rng: &mut Rng) -> Order {
    *rng.pick(&[Order::Asc, Order::Desc, Order::Shuffled, Order::Twice])
}

/// C01 / C03: one set, many histories.
pub fn hist(kind: Kind, seed: u64, per_p: u64) {
    for p in precisions(kind) {
        for i in 0..per_p {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x01);
            let mut s = Sc::new(&format!("hist-{}-p{}-{}", kn(kind), p, i), rng.next());
            let level = i % 6;
            let v = volume(kind, p, level, &mut rng);
            let k = rng.range(1, 5) as usize;
            let singles = rng.range(1, 6) as usize;
            let g = groups("g", v, k, singles, &mut rng);
            let ms = masks(kind, p, &spots(kind, p, &g, &mut rng), 8, &mut rng);
            let mut ks = Vec::new();
            // all at once, ascending
            let a = s.mk_u(kind, p);
            s.ins(a, &g, Order::Asc);
            ks.push(a);
            // estimate after every step, same order
            let b = s.mk(kind, p);
            s.cnt(b);
            for x in &g {
                s.ins(b, std::slice::from_ref(x), any_order(&mut rng));
                s.cnt(b);
                if rng.chance(30) {
                    s.cnt(b);
                }
            }
            ks.push(b);
            // permuted steps, estimates and repetitions at random
            for _ in 0..2 {
                let mut gg = g.clone();
                rng.shuffle(&mut gg);
                let c = s.mk(kind, p);
                for (j, x) in gg.iter().enumerate() {
                    s.ins(c, std::slice::from_ref(x), any_order(&mut rng));
                    if rng.chance(25) {
                        let again = gg[rng.below(j as u64 + 1) as usize].clone();
                        s.ins(c, &[again], any_order(&mut rng));
                    }
                    if rng.chance(40) {
                        s.cnt(c);
                    }
                }
                ks.push(c);
            }
            // everything shuffled into one stream
            let d = s.mk(kind, p);
            s.ins(d, &g, Order::Shuffled);
            if rng.chance(50) {
                s.cnt(d);
            }
            s.ins(d, &g, Order::Twice);
            ks.push(d);
            // prefixes: the same subset reached along different ways
            let e = s.mk(kind, p);
            let mut gg = g.clone();
            gg.reverse();
            for x in &gg {
                s.ins(e, std::slice::from_ref(x), Order::Desc);
                s.cnt(e);
                let c = s.control(e);
                s.cnt(c);
                if p >= 15 {
                    break;
                }
            }
            s.ins(e, &g, Order::Desc);
            ks.push(e);
            s.probe(&ks, &ms);
            s.end();
        }
    }
}

/// A sketch with a random history over some of the atoms.
pub fn random_sketch(
    s: &mut Sc,
    kind: Kind,
    p: u8,
    atoms: &[Atom],
    ty: Option<(Ty, u64)>,
    rng: &mut Rng,
) -> u32 {
    let k = match ty {
        None => s.mk(kind, p),
        Some((ty, key)) => s.make_keyed(kind, ty, p, key).unwrap_or(0),
    };
    for a in atoms {
        s.ins(k, std::slice::from_ref(a), any_order(rng));
        if rng.chance(35) {
            s.cnt(k);
        }
    }
    // leave something unprocessed in it, or not
    if rng.chance(50) {
        s.cnt(k);
    }
    if rng.chance(60) {
        let h = edge_hash(kind, p, rng);
        s.h(k, h);
    }
    if kind == Kind::Plus && rng.chance(35) {
        // few or as many as can be unprocessed, some of them not new
        s.cnt(k);
        let q = (limit(p) / 100).max(1);
        let n = *rng.pick(&[1, q / 3 + 1, q.max(2) - 1, q]);
        let mut v = hashes(kind, p, Style::Uniform, n as usize, rng);
        if !atoms.is_empty() {
            let old = rng.pick(atoms).hashes();
            let repeated = rng.range(1, n.min(old.len() as u64)) as usize;
            let at = rng.below(old.len() as u64) as usize;
            for j in 0..repeated {
                v[j] = old[(at + j) % old.len()];
            }
        }
        let id = format!("pend{:x}", rng.next());
        s.ins(k, &[x(id, v)], any_order(rng));
    }
    k
}

pub fn some_atoms(kind: Kind, p: u8, level: u64, tag: &str, rng: &mut Rng) -> Vec<Atom> {
    let v = volume(kind, p, level, rng);
    let k = rng.range(1, 3) as usize;
    let n = rng.range(1, 4) as usize;
    groups(tag, v, k, n, rng)
}

/// Copies of lists with unprocessed entries, of which some are listed already.
fn pending_copies(via_clone: bool, seed: u64, per_p: u64) {
    let kind = Kind::Plus;
    for p in precisions(kind) {
        for i in 0..1 + per_p / 20 {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x66);
            let name = if via_clone { "clone" } else { "save" };
            let mut s = Sc::new(&format!("{}-pending-p{}-{}", name, p, i), rng.next());
            let q = (limit(p) / 100).max(1) as usize;
            for (j, listed) in [1usize, q / 3 + 1, 7 * q, 23 * q].iter().enumerate() {
                for (l, pending) in [q / 4 + 1, q - q.min(2) / 2].iter().enumerate() {
                    let st = *rng.pick(&[Style::Uniform, Style::Uniform, Style::Mixed]);
                    let old = hashes(kind, p, st, *listed, &mut rng);
                    let mut new = hashes(kind, p, st, *pending, &mut rng);
                    let common = *rng.pick(&[1, 1, old.len() / 2, old.len()]);
                    let common = common.min(new.len());
                    let at = rng.below(old.len() as u64) as usize;
                    for c in 0..common {
                        new[c] = old[(at + c) % old.len()];
                    }
                    let old = x(format!("o{}-{}", j, l), old);
                    let new = x(format!("n{}-{}", j, l), new);
                    let k = s.mk(kind, p);
                    s.ins(k, &[old.clone()], Order::Shuffled);
                    s.cnt(k);
                    s.ins(k, &[new.clone()], Order::Shuffled);
                    let c = if via_clone { s.cln(k) } else { s.reload(k, rng.below(FORMATS) as u8) };
                    let t = s.mk(kind, p);
                    s.mrg(t, c);
                    s.cnt(c);
                    s.cnt(k);
                    s.cnt(t);
                    let o = s.mk(kind, p);
                    s.ins(o, &[new, old], Order::Shuffled);
                    s.cnt(o);
                    let h = edge_hash(kind, p, &mut rng);
                    for k in [c, k, o] {
                        s.h(k, h);
                        s.cnt(k);
                    }
                }
            }
            s.end();
        }
    }
}

/// Merges of lists with unprocessed entries on both sides; any of the four
/// parts may share elements with any other.
fn pending_merges(seed: u64, per_p: u64) {
    let kind = Kind::Plus;
    for p in precisions(kind) {
        for i in 0..1 + per_p / 12 {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x67);
            let mut s = Sc::new(&format!("merge-pending-p{}-{}", p, i), rng.next());
            let q = (limit(p) / 100).max(1) as usize;
            for j in 0..6 {
                // listed, unprocessed: of the target, of the source
                let sizes = [
                    *rng.pick(&[0, 1, q / 3 + 1, 9 * q]),
                    *rng.pick(&[0, q / 4 + 1, q / 2 + 1, q]),
                    *rng.pick(&[0, 1, q / 3 + 1, 9 * q]),
                    *rng.pick(&[0, q / 4 + 1, q / 2, q]),
                ];
                let st = *rng.pick(&[Style::Uniform, Style::Uniform, Style::Mixed]);
                let mut parts: Vec<Vec<u64>> = Vec::new();
                for n in sizes {
                    let mut v = hashes(kind, p, st, n, &mut rng);
                    for old in &parts {
                        if rng.chance(50) && !old.is_empty() && n > 0 {
                            let common = *rng.pick(&[1, n / 2 + 1, n]);
                            let (at, to) = (rng.below(old.len() as u64) as usize, rng.below(n as u64) as usize);
                            for c in 0..common.min(old.len()) {
                                v[(to + c) % n] = old[(at + c) % old.len()];
                            }
                        }
                    }
                    parts.push(v);
                }
                let parts: Vec<Atom> =
                    parts.into_iter().enumerate().map(|(c, v)| x(format!("p{}-{}", j, c), v)).collect();
                let mut pair = Vec::new();
                for c in [0, 2] {
                    let k = s.mk(kind, p);
                    for (d, part) in parts[c..c + 2].iter().enumerate() {
                        if sizes[c + d] > 0 {
                            s.ins(k, std::slice::from_ref(part), Order::Shuffled);
                        }
                        if d == 0 {
                            s.cnt(k);
                        }
                    }
                    pair.push(k);
                }
                let (a, b) = (pair[0], pair[1]);
                s.mrg(a, b);
                if rng.chance(50) {
                    s.mrg(a, b);
                }
                s.cnt(a);
                s.cnt(b);
                let o = s.control(a);
                s.cnt(o);
                let ob = s.control(b);
                s.cnt(ob);
                s.mrg(b, a);
                s.cnt(b);
            }
            s.end();
        }
    }
}

/// Elements at regular distances (in the order of the codes, or of the
/// buckets and at one rank), random subsets of them merged: where differences,
/// sums and checksums of different contents coincide.
fn lattice(kind: Kind, seed: u64, per_p: u64) {
    for p in precisions(kind) {
        for i in 0..2 + per_p / 4 {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x1a);
            let mut s = Sc::new(&format!("lattice-{}-p{}-{}", kn(kind), p, i), rng.next());
            let n = rng.range(4, 8);
            let by_code = kind == Kind::Plus && i % 2 == 0;
            let universe: Vec<Atom> = if by_code {
                let top = 1u64 << 25;
                let step = match rng.below(5) {
                    0 => rng.range(1, 70),
                    1 => 1 << rng.range(0, 21),
                    2 => (1 << (25 - p)) * rng.range(1, (1 << p) / 9 + 1),
                    _ => rng.range(1, top / 9),
                };
                let any = rng.below(top);
                let start = *rng.pick(&[step, step, 0, any]);
                let (r, salt) = (rng.range(1, 3) as u32, rng.next());
                (0..n).map(|j| Atom::H(prefix_hash((start + j * step) % top, r, salt))).collect()
            } else {
                let m = 1u64 << p;
                let any = rng.range(1, m);
                let step = *rng.pick(&[1, 2, 5, 6, 6, 5, 10, 12, 30, 32, any]);
                let (b, r) = (rng.below(m), rng.range(2, 8) as u32);
                (0..n)
                    .map(|j| {
                        let r = r + if rng.chance(15) { 1 } else { 0 };
                        crate::est::reg_hash(kind, p, (b + j * step) % m, r, &mut rng)
                    })
                    .collect()
            };
            // large ones, every bucket of the same rank
            let large = kind == Kind::Plus && p <= 12 && (!by_code || i % 4 == 2);
            let base = s.mk(kind, p);
            if large {
                s.ins(base, &[crate::est::reg_run(kind, p, 0, 1 << p, 1, &mut rng)], Order::Shuffled);
                s.cnt(base);
            }
            for _ in 0..14 {
                let mut pair = Vec::new();
                for _ in 0..2 {
                    let k = s.cln(base);
                    let size = rng.range(1, 3);
                    let mut g: Vec<Atom> = (0..size).map(|_| rng.pick(&universe).clone()).collect();
                    rng.shuffle(&mut g);
                    s.ins(k, &g, Order::Shuffled);
                    if rng.chance(75) {
                        s.cnt(k);
                    }
                    pair.push(k);
                }
                s.mrg(pair[0], pair[1]);
                s.cnt(pair[0]);
                if rng.chance(40) {
                    s.mrg(pair[1], pair[0]);
                    s.cnt(pair[1]);
                }
            }
            s.end();
        }
    }
}

/// C02 / C04: merging is union.
pub fn merge(kind: Kind, seed: u64, per_p: u64) {
    if kind == Kind::Plus {
        pending_merges(seed, per_p);
    }
    lattice(kind, seed, per_p);
    let lv: [u64; 8] = [0, 1, 2, 3, 4, 5, 6, 7]; // 6: empty, 7: every bucket filled
    for p in precisions(kind) {
        for i in 0..per_p {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x02);
            let mut s = Sc::new(&format!("merge-{}-p{}-{}", kn(kind), p, i), rng.next());
            // first all pairs of forms in turn, then anything
            let (la, lb) = match i {
                0 => (1, 1),
                1 => (1, 4),
                2 => (4, 1),
                3 => (4, 4),
                4 => (6, *rng.pick(&[1, 4])),
                5 => (*rng.pick(&[1, 4]), 6),
                6 => (2, 0),
                7 => (0, 2),
                8 => (7, *rng.pick(&[1, 2])),
                9 => (1, 7),
                _ => (*rng.pick(&lv), *rng.pick(&lv)),
            };
            let lc = *rng.pick(&lv);
            let mk = |l: u64, t: &str, rng: &mut Rng| {
                if l == 6 {
                    Vec::new()
                } else if l == 7 {
                    // no empty bucket, and all of the same low rank
                    let r = rng.range(1, 2) as u32;
                    let mut v = vec![reg_run(kind, p, 0, 1 << p, r, rng)];
                    if rng.chance(40) {
                        v.extend(some_atoms(kind, p, 0, t, rng));
                    }
                    v
                } else {
                    some_atoms(kind, p, l, t, rng)
                }
            };
            let mut ga = mk(la, "a", &mut rng);
            let gb = mk(lb, "b", &mut rng);
            let gc = mk(lc, "c", &mut rng);
            // some common elements
            if rng.chance(60) && !gb.is_empty() {
                ga.push(rng.pick(&gb).clone());
            }
            let a = random_sketch(&mut s, kind, p, &ga, None, &mut rng);
            let b = random_sketch(&mut s, kind, p, &gb, None, &mut rng);
            let c = random_sketch(&mut s, kind, p, &gc, None, &mut rng);
            let cb = s.control(b);
            let mut all = ga.clone();
            all.extend(gb.iter().cloned());
            all.extend(gc.iter().cloned());
            let ms = masks(kind, p, &spots(kind, p, &all, &mut rng), 6, &mut rng);
            // ab = a u b, and what comes after it
            s.mrg(a, b);
            if rng.chance(50) {
                s.cnt(a);
            }
            let more: Vec<u64> = (0..rng.below(4)).map(|_| edge_hash(kind, p, &mut rng)).collect();
            for h in &more {
                s.h(a, *h);
            }
            s.cnt(a);
            let ca = s.control(a);
            s.cnt(ca);
            // the other way round, with the same later insertions
            let b2 = random_copy(&mut s, b, &mut rng);
            let a2 = {
                let k = s.mk(kind, p);
                s.ins(k, &ga, Order::Shuffled);
                k
            };
            s.mrg(b2, a2);
            s.cnt(b2);
            s.mrg(b2, a);
            s.cnt(b2);
            // idempotent
            s.mrg(a, b);
            s.cnt(a);
            s.mrg(a, ca);
            s.cnt(a);
            // trees: (a u b) u c and a u (b u c)
            let t1 = s.mk(kind, p);
            s.mrg(t1, c);
            s.mrg(t1, a);
            if rng.chance(30) {
                s.cnt(t1);
            }
            s.mrg(c, b);
            if rng.chance(30) {
                s.cnt(c);
            }
            s.mrg(a, c);
            s.cnt(a);
            s.cnt(t1);
            s.cnt(c);
            let e = s.mk(kind, p);
            s.mrg(a, e);
            s.cnt(a);
            s.cnt(e);
            // the same once more, often
            let again = *rng.pick(&[b, e, ca, t1]);
            for _ in 0..rng.pick(&[1, 3, 40]) * if p > 12 { 1 } else { 3 } {
                s.mrg(a, again);
            }
            s.cnt(a);
            let ca = s.control(a);
            let cc = s.control(c);
            s.probe(&[a, t1, ca], &ms);
            s.probe(&[b, cb], &ms);
            s.probe(&[c, cc], &ms);
            s.end();
        }
    }
}

fn random_copy(s: &mut Sc, k: u32, _rng: &mut Rng) -> u32 {
    // a second sketch with the same contents, made by insertion only
    s.control(k)
}

/// C05: precisions.
pub fn prec(seed: u64, tier: u64) {
    for kind in [Kind::Plus, Kind::PF] {
        for (j, ty) in [Ty::U64, Ty::Str, Ty::Bytes, Ty::Slice].into_iter().enumerate() {
            if !mine(0, j as u64) {
                continue;
            }
            let mut rng = Rng::new(seed ^ 0x0105);
            let mut s = Sc::new(&format!("new-{}-{:?}", kn(kind), ty), rng.next());
            for p in 0..=255u8 {
                if let Some(k) = s.make(kind, ty, p) {
                    s.h(k, 1 << 40);
                    s.cnt(k);
                }
            }
            s.end();
        }
        let forms: u64 = if tier > 0 { 6 } else { 1 };
        for f in 0..forms {
            for p in precisions(kind) {
                if !mine(p, f) {
                    continue;
                }
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (f << 40) ^ 0x05);
                let mut s = Sc::new(&format!("pairs-{}-p{}-{}", kn(kind), p, f), rng.next());
                for q in precisions(kind) {
                    let (la, lb) = (*rng.pick(&[0, 0, 1, 4]), *rng.pick(&[0, 0, 1, 4]));
                    let la = if p > 13 && la == 4 && tier == 0 { 1 } else { la };
                    let lb = if q > 13 && lb == 4 && tier == 0 { 1 } else { lb };
                    let ga = some_atoms(kind, p, la, "a", &mut rng);
                    let gb = some_atoms(kind, q, lb, "b", &mut rng);
                    let ga = if rng.chance(8) { Vec::new() } else { ga };
                    let gb = if rng.chance(8) { Vec::new() } else { gb };
                    let a = random_sketch(&mut s, kind, p, &ga, None, &mut rng);
                    let b = random_sketch(&mut s, kind, q, &gb, None, &mut rng);
                    let ca = s.control(a);
                    let cb = s.control(b);
                    let (h1, h2) = (edge_hash(kind, p, &mut rng), edge_hash(kind, q, &mut rng));
                    s.mrg(a, b);
                    if p != q {
                        s.mrg(b, a);
                    }
                    s.cnt(a);
                    s.cnt(b);
                    s.cnt(ca);
                    s.cnt(cb);
                    s.h(a, h1);
                    s.h(b, h2);
                    if p == q {
                        let c = s.control(a);
                        s.cnt(c);
                    } else {
                        s.h(ca, h1);
                    }
                    s.h(cb, h2);
                    let ma = masks(kind, p, &spots(kind, p, &ga, &mut rng), 2, &mut rng);
                    let mb = masks(kind, q, &spots(kind, q, &gb, &mut rng), 2, &mut rng);
                    s.probe(&[a, ca], &ma);
                    s.probe(&[b, cb], &mb);
                }
                s.end();
            }
        }
    }
}

/// C06 / C07: a copy at any point, then both live on.
pub fn copy(kind: Kind, via_clone: bool, seed: u64, per_p: u64) {
    if kind == Kind::Plus {
        pending_copies(via_clone, seed, per_p);
    }
    for p in precisions(kind) {
        for i in 0..per_p {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x06);
            let name = if via_clone { "clone" } else { "save" };
            let mut s = Sc::new(&format!("{}-{}-p{}-{}", name, kn(kind), p, i), rng.next());
            let la = i % 7;
            let ga = if la == 6 { Vec::new() } else { some_atoms(kind, p, la, "a", &mut rng) };
            let gb = some_atoms(kind, p, *rng.pick(&[0, 1, 2, 4]), "b", &mut rng);
            let mut a = random_sketch(&mut s, kind, p, &ga, None, &mut rng);
            if la == 6 && rng.chance(50) {
                a = s.mk(kind, p);
            }
            let o = random_sketch(&mut s, kind, p, &gb, None, &mut rng);
            let cp = |s: &mut Sc, k: u32, rng: &mut Rng| -> u32 {
                if via_clone {
                    s.cln(k)
                } else {
                    s.reload(k, rng.below(FORMATS) as u8)
                }
            };
            let c1 = cp(&mut s, a, &mut rng);
            let mut c2 = cp(&mut s, c1, &mut rng);
            if via_clone && rng.chance(70) {
                // over an existing sketch, in another form or of another precision
                let q = if rng.chance(60) { p } else { *rng.pick(&[4, 7, 12]) };
                let lv = *rng.pick(&[0, 1, 4, 4, 6]);
                let gq = if lv == 6 { Vec::new() } else { some_atoms(kind, q, lv, "q", &mut rng) };
                let v = s.make(kind, s.ty(c1), q).unwrap_or(0);
                s.ins(v, &gq, Order::Shuffled);
                if rng.chance(40) {
                    s.cnt(v);
                }
                if rng.chance(40) {
                    let h = edge_hash(kind, q, &mut rng);
                    s.h(v, h);
                }
                let src = *rng.pick(&[a, c1]);
                s.assign(src, v);
                c2 = v;
            }
            let ko = s.control(a);
            // the same future for both, the original included
            let mut fut: Vec<(u64, Atom)> = Vec::new();
            for _ in 0..rng.range(1, 6) {
                let at = if rng.chance(60) || gb.is_empty() {
                    Atom::H(edge_hash(kind, p, &mut rng))
                } else {
                    rng.pick(&gb).clone()
                };
                fut.push((rng.below(4), at));
            }
            // one copy lives differently first: it must not disturb the others
            let odd = cp(&mut s, a, &mut rng);
            let n = rng.range(1, 3 * limit(p.min(10)));
            let wild = hashes(kind, p, Style::Uniform, n as usize, &mut rng);
            s.ins(odd, &[x(format!("wild{}", i), wild)], Order::Shuffled);
            s.cnt(odd);
            s.mrg(odd, o);
            s.cnt(odd);
            let first = *rng.pick(&[0usize, 1, 2, 3]);
            let mut order = vec![a, c1, c2, ko];
            order.swap(0, first);
            for k in &order {
                for (what, at) in &fut {
                    match what {
                        0 => {
                            s.cnt(*k);
                            s.ins(*k, std::slice::from_ref(at), Order::Shuffled);
                        }
                        1 => {
                            s.mrg(*k, o);
                            s.ins(*k, std::slice::from_ref(at), Order::Asc);
                        }
                        _ => s.ins(*k, std::slice::from_ref(at), Order::Desc),
                    }
                }
                s.cnt(*k);
            }
            let l1 = cp(&mut s, c2, &mut rng);
            s.cnt(l1);
            // a copy as the source of a merge
            let t = s.mk(kind, p);
            s.mrg(t, c1);
            s.cnt(t);
            let mut all = ga.clone();
            all.extend(fut.iter().map(|f| f.1.clone()));
            let ms = masks(kind, p, &spots(kind, p, &all, &mut rng), 6, &mut rng);
            s.probe(&[a, c1, l1, ko], &ms);
            let oo = s.control(odd);
            s.probe(&[odd, oo], &ms);
            let kt = s.control(t);
            s.probe(&[t, kt], &ms);
            s.end();
        }
    }
}

/// C14: entry points and value types.
struct Nested(Kind, Ty, u8, u64);

impl std::hash::Hash for Nested {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        let mut a = Sk::new(self.0, self.1, self.2, 0).unwrap();
        let mut b = a.clone();
        for i in 0..40u64 {
            let h = (self.3 ^ i).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            a.insert(h, Api::Insert);
            b.insert(!h, Api::Any);
        }
        let n = a.count();
        a.merge(&b).unwrap();
        let m = a.count();
        (n > 0.0 && m > n, self.3).hash(state);
    }
}

pub fn api(seed: u64, per_p: u64) {
    let apis = [Api::Insert, Api::Add, Api::Any, Api::AnyOther, Api::Borrowed];
    let tys = [Ty::U64, Ty::Str, Ty::Bytes, Ty::Slice];
    for kind in [Kind::Plus, Kind::PF] {
        for p in precisions(kind) {
            for i in 0..per_p {
                if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x0e);
                let mut s = Sc::new(&format!("api-{}-p{}-{}", kn(kind), p, i), rng.next());
                let level = match i {
                    0 => 1,
                    1 => 4,
                    _ => rng.below(5),
                };
                let level = if p > 14 && i > 1 { 0 } else { level };
                let g = some_atoms(kind, p, level, "g", &mut rng);
                // a few single hashes through every entry point, in every form
                let singles: Vec<Atom> =
                    (0..5).map(|_| Atom::H(edge_hash(kind, p, &mut rng))).collect();
                let ms = masks(kind, p, &spots(kind, p, &singles, &mut rng), 5, &mut rng);
                let mut ks = Vec::new();
                for ty in tys {
                    for api in apis {
                        if p > 14 && ty != Ty::U64 && !rng.chance(40) {
                            continue;
                        }
                        let k = s.make(kind, ty, p).unwrap_or(0);
                        s.ins_api(k, &singles[..3], Order::Shuffled, api);
                        if rng.chance(30) {
                            s.cnt(k);
                        }
                        s.ins_api(k, &g, Order::Asc, api);
                        s.ins_api(k, &singles[3..], Order::Shuffled, api);
                        s.cnt(k);
                        ks.push(k);
                    }
                }
                // all entry points mixed in one sketch
                let k = s.make(kind, *rng.pick(&tys), p).unwrap_or(0);
                for a in g.iter().chain(singles.iter()) {
                    let api = *rng.pick(&apis);
                    s.ins_api(k, std::slice::from_ref(a), Order::Shuffled, api);
                }
                ks.push(k);
                let (n1, n2) = (rng.below(ks.len() as u64) as usize, ks.len() - 1);
                s.probe(&[ks[n1], ks[n2], ks[0]], &ms);
                // values of any type, each held against its hash
                for ty in tys {
                    let k = s.make(kind, ty, p).unwrap_or(0);
                    for large in [false, true] {
                        if large {
                            if p > 13 {
                                break;
                            }
                            s.ins(k, &g, Order::Asc);
                        }
                        let (u, w) = (rng.next(), rng.next());
                        s.any(k, &(u, w));
                        s.any(k, &[u, w, u][..]);
                        s.any(k, &Some(u));
                        s.any(k, &(u as u32));
                        s.any(k, &(u as u8));
                        s.any(k, &(u as u16));
                        s.any(k, &(u as i64));
                        s.any(k, &(u as u128 | (w as u128) << 64));
                        s.any(k, &(u as usize));
                        s.any(k, &true);
                        s.any(k, &'q');
                        s.any(k, &());
                        s.any(k, "");
                        s.any(k, "a longer string than sixteen digits");
                        s.any(k, &vec![format!("{}", u), String::new()]);
                        s.any(k, &Box::new((w, "x", [u as u8; 5])));
                        s.any::<[u8]>(k, &[]);
                        s.any(k, &[u; 40]);
                        s.any(k, &[w as u8; 5000]);
                        s.any(k, &vec![(u, w as u16); 700]);
                        s.any(k, &std::rc::Rc::new(std::borrow::Cow::Borrowed("cow")));
                        // an element that uses a sketch while it is hashed
                        s.any(k, &Nested(kind, ty, p, u));
                        s.any(k, &Nested(kind, Ty::U64, 4 + (w % 8) as u8, w));
                        s.cnt(k);
                        let c = s.control(k);
                        let ms = masks(kind, p, &spots(kind, p, &singles, &mut rng), 3, &mut rng);
                        if large || p > 13 {
                            s.probe(&[k, c], &ms);
                        } else {
                            s.cnt(c);
                        }
                    }
                }
                // sketches with different element and hasher types merge by hash
                for t1 in tys {
                    for t2 in tys {
                        let a = s.make(kind, t1, p).unwrap_or(0);
                        let b = s.make(kind, t2, p).unwrap_or(0);
                        s.ins_api(a, &singles[..2], Order::Asc, *rng.pick(&apis));
                        s.ins_api(b, &singles[1..], Order::Asc, *rng.pick(&apis));
                        if p <= 12 && rng.chance(50) {
                            s.ins_api(b, &g, Order::Asc, Api::Insert);
                        }
                        s.mrg(a, b);
                        s.cnt(a);
                        let c = s.control(a);
                        s.cnt(c);
                    }
                }
                s.end();
            }
        }
    }
}
