//! Scenarios whose estimates the specification computes itself (C08-C13, C16, C17).
use crate::gen::*;
use crate::hashers::Rng;
use crate::sk::*;
use crate::memo::precisions;
use crate::world::*;

pub fn kn(kind: Kind) -> &'static str {
    if kind == Kind::Plus {
        "plus"
    } else {
        "pf"
    }
}

pub fn max_rank(kind: Kind, p: u8) -> u32 {
    match kind {
        Kind::Plus => 65 - p as u32,
        Kind::PF => 33 - p as u32,
    }
}

/// n buckets from b0 on, each with one hash of the given rank.
pub fn reg_run(kind: Kind, p: u8, b0: u64, n: u64, rank: u32, rng: &mut Rng) -> Atom {
    match kind {
        Kind::PF => Atom::run(kind, p, b0, 1, n, rank),
        Kind::Plus => {
            let w = 25 - p as u32;
            let span = 1u64 << w;
            if rank <= w {
                Atom::run(kind, p, b0 * span + (1 << (w - rank)), span, n, rng.range(1, 40) as u32)
            } else {
                Atom::run(kind, p, b0 * span, span, n, rank - w)
            }
        }
    }
}

/// A single hash of the given bucket and rank.
pub fn reg_hash(kind: Kind, p: u8, b: u64, rank: u32, rng: &mut Rng) -> Atom {
    Atom::H(match kind {
        Kind::Plus => plus_hash(p, b, rank, rng.next()),
        Kind::PF => pf_hash(p, b, rank, rng.next()),
    })
}

/// Runs hiding every bucket except the (sorted) ones given.
fn mask_except(kind: Kind, p: u8, keep: &[u64], rng: &mut Rng) -> Vec<Atom> {
    let m = 1u64 << p;
    let mut out = Vec::new();
    let mut at = 0;
    for b in keep.iter().chain(std::iter::once(&m)) {
        if *b > at {
            out.push(reg_run(kind, p, at, b - at, mask_rank(kind, p), rng));
        }
        at = b + 1;
    }
    out
}

fn distinct_buckets(p: u8, n: usize, rng: &mut Rng) -> Vec<u64> {
    let m = 1u64 << p;
    let mut v: Vec<u64> = Vec::new();
    let start = *rng.pick(&[0, 1, 2, 3, 4, m / 2, m.saturating_sub(n as u64)]);
    let mode = rng.below(3);
    let mut i = 0;
    while v.len() < n.min(m as usize) {
        let b = match mode {
            0 => (start + i) % m,
            1 => rng.below(m),
            _ => {
                if rng.chance(50) {
                    *rng.pick(&[0, 1, 4, 5, 6, 9, 10, m - 1, m - 2, m / 2, m / 2 - 1]) % m
                } else {
                    rng.below(m)
                }
            }
        };
        i += 1;
        if !v.contains(&b) {
            v.push(b);
        }
    }
    rng.shuffle(&mut v);
    v
}

/// C08 / C09: hashes of chosen bucket and rank come in along every way; then
/// all other buckets are hidden, and these uncovered rank by rank.
pub fn ranks(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        let maxr = max_rank(kind, p);
        let m = 1u64 << p;
        let chunk = 15u32.min(m as u32);
        let chunks = maxr.div_ceil(chunk);
        for i in 0..(rounds * u64::from(chunks)) {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x08);
            let c = (i % u64::from(chunks)) as u32;
            let rs: Vec<u32> = (c * chunk + 1..=((c + 1) * chunk).min(maxr)).collect();
            let bs = distinct_buckets(p, rs.len(), &mut rng);
            let ways = if kind == Kind::Plus { 8 } else { 5 };
            let way = (i / u64::from(chunks) + u64::from(c)) % ways;
            let mut s = Sc::new(&format!("ranks-{}-p{}-{}-w{}", kn(kind), p, i, way), rng.next());
            let hs: Vec<Atom> = rs
                .iter()
                .zip(bs.iter())
                .map(|(r, b)| reg_hash(kind, p, *b, *r, &mut rng))
                .collect();
            // lower ranks in the same buckets, before or after
            let low: Vec<Atom> = rs
                .iter()
                .zip(bs.iter())
                .filter(|(r, _)| **r > 1)
                .map(|(r, b)| {
                    let q = if rng.chance(50) { *r - 1 } else { rng.range(1, u64::from(*r) - 1) as u32 };
                    reg_hash(kind, p, *b, q, &mut rng)
                })
                .collect();
            let mut sorted = bs.clone();
            sorted.sort_unstable();
            let mask = mask_except(kind, p, &sorted, &mut rng);
            let with_low = rng.chance(50);
            let feed = |s: &mut Sc, k: u32, rng: &mut Rng| {
                if with_low && rng.chance(50) {
                    s.ins(k, &low, Order::Shuffled);
                    if rng.chance(50) {
                        s.cnt(k);
                    }
                }
                if rng.chance(30) {
                    for h in &hs {
                        s.ins(k, std::slice::from_ref(h), Order::Asc);
                        s.cnt(k);
                    }
                } else {
                    s.ins(k, &hs, Order::Shuffled);
                }
                if with_low && rng.chance(50) {
                    s.ins(k, &low, Order::Shuffled);
                }
            };
            let t = s.mk(kind, p);
            match way {
                // before the mask
                0 => {
                    feed(&mut s, t, &mut rng);
                    if rng.chance(50) {
                        s.cnt(t);
                    }
                    s.ins(t, &mask, Order::Shuffled);
                }
                // after it
                1 => {
                    s.ins(t, &mask, Order::Shuffled);
                    s.cnt(t);
                    feed(&mut s, t, &mut rng);
                }
                // mask received through a merge
                2 => {
                    feed(&mut s, t, &mut rng);
                    if rng.chance(50) {
                        s.cnt(t);
                    }
                    let k = s.mk(kind, p);
                    s.ins(k, &mask, Order::Asc);
                    s.mrg(t, k);
                }
                // hashes received through a merge
                3 | 5 => {
                    s.ins(t, &mask, Order::Desc);
                    let k = s.mk(kind, p);
                    feed(&mut s, k, &mut rng);
                    if way == 5 {
                        s.cnt(k);
                    }
                    s.mrg(t, k);
                }
                // both received, into an empty sketch
                4 => {
                    let k = s.mk(kind, p);
                    s.ins(k, &mask, Order::Asc);
                    let j = s.mk(kind, p);
                    feed(&mut s, j, &mut rng);
                    s.mrg(t, j);
                    if rng.chance(50) {
                        s.cnt(t);
                    }
                    s.mrg(t, k);
                }
                // between two large sketches
                6 => {
                    let k = s.mk(kind, p);
                    let half = mask.len() / 2;
                    s.ins(k, &mask, Order::Asc);
                    feed(&mut s, k, &mut rng);
                    s.ins(t, &mask[half..], Order::Asc);
                    s.mrg(t, k);
                }
                // in the middle of the mask
                _ => {
                    let half = mask.len() / 2;
                    s.ins(t, &mask[..half], Order::Asc);
                    feed(&mut s, t, &mut rng);
                    s.ins(t, &mask[half..], Order::Asc);
                }
            }
            s.cnt(t);
            for b in &bs {
                let h = reg_hash(kind, p, *b, mask_rank(kind, p), &mut rng);
                s.ins(t, &[h], Order::Asc);
                s.cnt(t);
            }
            s.end();
        }
        // one bucket through all its ranks, upwards from empty, in the register form
        for (j, b) in distinct_buckets(p, (2 * rounds as usize).min(m as usize), &mut Rng::new(seed ^ u64::from(p)))
            .into_iter()
            .enumerate()
        {
            if !mine(p, j as u64 + 3) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ ((j as u64) << 40) ^ 0x88);
            let mut s = Sc::new(&format!("climb-{}-p{}-{}", kn(kind), p, j), rng.next());
            let t = s.mk(kind, p);
            let mask = mask_except(kind, p, &[b], &mut rng);
            s.ins(t, &mask, Order::Shuffled);
            s.cnt(t);
            for r in 1..=maxr {
                let h = reg_hash(kind, p, b, r, &mut rng);
                s.ins(t, &[h], Order::Asc);
                s.cnt(t);
                if r > 2 && rng.chance(40) {
                    let h = reg_hash(kind, p, b, rng.range(1, u64::from(r) - 1) as u32, &mut rng);
                    s.ins(t, &[h], Order::Asc);
                    s.cnt(t);
                }
            }
            s.end();
        }
        // one hash, every bit pattern class: single bits, and complements
        if kind == Kind::Plus || kind == Kind::PF {
            for i in 0..4u64 {
                if !mine(p, i + 5) {
                    continue;
                }
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x888);
                let mut s = Sc::new(&format!("bits-{}-p{}-{}", kn(kind), p, i), rng.next());
                let hs: Vec<u64> = (0..16)
                    .map(|j| {
                        let bit = 1u64 << (i * 16 + j);
                        if rng.chance(50) {
                            bit
                        } else {
                            !bit & rng.next() & rng.next()
                        }
                    })
                    .collect();
                let mut keep: Vec<u64> = hs.iter().map(|h| bucket(kind, p, *h)).collect();
                keep.sort_unstable();
                keep.dedup();
                let t = s.mk(kind, p);
                let first = rng.chance(50);
                let mask = mask_except(kind, p, &keep, &mut rng);
                if first {
                    s.ins(t, &mask, Order::Shuffled);
                }
                for h in &hs {
                    s.h(t, *h);
                    s.cnt(t);
                }
                if !first {
                    s.ins(t, &mask, Order::Shuffled);
                }
                s.cnt(t);
                rng.shuffle(&mut keep);
                for b in keep {
                    let h = reg_hash(kind, p, b, mask_rank(kind, p), &mut rng);
                    s.ins(t, &[h], Order::Asc);
                    s.cnt(t);
                }
                s.end();
            }
        }
    }
}

/// Consecutive entries of one byte each (buckets from b0 on), n of them.
fn dense(p: u8, b0: u64, n: u64, rng: &mut Rng) -> Vec<Atom> {
    let span = 1u64 << (25 - p);
    let mut out = Vec::new();
    let (mut b, mut left) = (b0, n);
    while left > 0 && b < 1 << p {
        let take = left.min(span - 1);
        out.push(Atom::run(Kind::Plus, p, b * span + 1, 1, take, rng.range(1, 40) as u32));
        left -= take;
        b += 1;
    }
    out
}

/// A set that nearly fills the small form, as runs, with gaps of one kind.
fn nearly_full(p: u8, bytes: u64, rng: &mut Rng) -> Vec<Atom> {
    let m = 1u64 << p;
    let w = 25 - u64::from(p);
    let span = 1u64 << w;
    let mut kinds = vec![1, 2];
    if bytes / (span - 1) < 120 {
        kinds.push(0);
        kinds.push(0);
    }
    match *rng.pick(&kinds) {
        0 => dense(p, rng.below(m - bytes / (span - 1) - 1), bytes.saturating_sub(4).max(1), rng),
        k => {
            // unflagged: gaps 2*span; flagged: gaps 128*span
            let g = if k == 1 { 2 * span } else { 128 * span };
            let per = (1..6).find(|i| g < 1u64 << (7 * i)).unwrap();
            let n = (bytes.saturating_sub(5) / per).clamp(1, m / 2);
            let b0 = rng.below(m - n);
            let mut v = vec![reg_run(Kind::Plus, p, b0, n, if k == 1 { 1 } else { w as u32 + 1 + rng.below(40) as u32 }, rng)];
            // what is missing, densely, in the buckets behind
            let used = n * per + 5;
            if used + 8 < bytes && (bytes - used) / (span - 1) < 60 && b0 + n + 70 < m {
                v.extend(dense(p, b0 + n + 1, bytes - used - 4, rng));
            }
            v
        }
    }
}

fn all_hashes(v: &[Atom]) -> Vec<u64> {
    v.iter().flat_map(|a| a.hashes().iter().copied().collect::<Vec<_>>()).collect()
}

/// C10: sets whose compressed size passes the limit byte by byte.
pub fn limits(seed: u64, rounds: u64) {
    for p in 4..=18u8 {
        let l = limit(p);
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x0a);
            let mut s = Sc::new(&format!("limit-p{}-{}", p, i), rng.next());
            // bulk part
            let mut base: Vec<Atom> = Vec::new();
            if p >= 7 && i % 3 != 2 {
                base = nearly_full(p, l - rng.range(0, 12).min(l / 2), &mut rng);
            } else {
                let tgt = (l - rng.range(0, 8).min(l / 2)).min(220);
                let st = *rng.pick(&STYLES);
                for h in fill(p, st, tgt, &mut rng) {
                    base.push(Atom::H(h));
                }
            }
            let way = rng.below(5);
            let a = s.mk(Kind::Plus, p);
            match way {
                0 => s.ins(a, &base, Order::Asc),
                1 => s.ins(a, &base, Order::Shuffled),
                2 => {
                    for x in &base {
                        s.ins(a, std::slice::from_ref(x), Order::Desc);
                        if base.len() < 40 || rng.chance(10) {
                            s.cnt(a);
                        }
                    }
                }
                _ => {
                    let b = s.mk(Kind::Plus, p);
                    let n = rng.below(base.len() as u64 + 1) as usize;
                    s.ins(a, &base[..n], Order::Shuffled);
                    s.ins(b, &base[n..], Order::Shuffled);
                    if rng.chance(50) {
                        s.cnt(b);
                    }
                    if rng.chance(50) {
                        s.cnt(a);
                    }
                    s.mrg(a, b);
                    s.cnt(b);
                }
            }
            s.cnt(a);
            // entries close by, one at a time, over the limit
            let hs = all_hashes(&base);
            let mut all = hs.clone();
            let mut after = 0;
            for _ in 0..60 {
                let near = hs.get(rng.below(hs.len().max(1) as u64) as usize).copied().unwrap_or(0);
                let pre = near >> 39;
                let span = 1u64 << (25 - p);
                let h = match rng.below(6) {
                    0 => near,                                              // the same again
                    1 => prefix_hash(pre, rng.range(1, 40) as u32, rng.next()), // same prefix
                    2 => prefix_hash((pre / span) * span, rng.range(1, 40) as u32, rng.next()),
                    3 => prefix_hash((pre + rng.range(1, 4)) % (1 << 25), 1, rng.next()),
                    4 => prefix_hash((pre + span - 1 - rng.below(3)) % (1 << 25), 3, rng.next()),
                    _ => edge_hash(Kind::Plus, p, &mut rng),
                };
                all.push(h);
                if rng.chance(75) || way == 2 {
                    s.h(a, h);
                } else {
                    let b = s.mk(Kind::Plus, p);
                    s.h(b, h);
                    if rng.chance(30) {
                        s.cnt(b);
                    }
                    s.mrg(a, b);
                }
                if rng.chance(80) {
                    s.cnt(a);
                }
                if enc_len(p, &all) > l {
                    after += 1;
                }
                if after > 2 {
                    break;
                }
            }
            s.cnt(a);
            s.end();
        }
        // small values of n, up to the first hundreds of entries
        if mine(p, 1000) {
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ 0xaa);
            let mut s = Sc::new(&format!("few-p{}", p), rng.next());
            let a = s.mk(Kind::Plus, p);
            s.cnt(a);
            for j in 0..120 {
                let h = if j % 3 == 0 { edge_hash(Kind::Plus, p, &mut rng) } else { rng.next() };
                s.h(a, h);
                if j < 20 || j % 5 == 0 {
                    s.cnt(a);
                }
            }
            s.end();
        }
    }
}

fn alpha(m: f64) -> f64 {
    match m as u64 {
        16 => 0.673,
        32 => 0.697,
        64 => 0.709,
        _ => 0.7213 / (1.0 + 1.079 / m),
    }
}

const THR: [f64; 15] = [
    10.0, 20.0, 40.0, 80.0, 220.0, 400.0, 900.0, 1800.0, 3100.0, 6500.0, 11500.0, 20000.0, 50000.0,
    120000.0, 350000.0,
];

/// The published raw estimates: where the interesting register contents lie.
fn tables() -> Vec<Vec<f64>> {
    let t: serde_json::Value =
        serde_json::from_str(include_str!("../../spec/tables.json")).unwrap();
    t["raw"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| r.as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect())
        .collect()
}

/// Brings a sketch into the register form while touching few buckets.
pub fn force_large(s: &mut Sc, k: u32, p: u8, rng: &mut Rng) -> u64 {
    // dense entries in the first buckets; returns the number of buckets used
    let span = 1u64 << (25 - p);
    let n = limit(p) + 1;
    let d = dense(p, 0, n, rng);
    s.ins(k, &d, Order::Asc);
    n.div_ceil(span - 1)
}

/// C11: register contents that visit both sides of every decision and every
/// interval of the bias tables.
pub fn bias(seed: u64, rounds: u64, tier: u64) {
    for p in 4..=18u8 {
        let m = 1u64 << p;
        let (mf, al) = (m as f64, alpha(m as f64));
        let zthr = mf * (-THR[p as usize - 4] / mf).exp();
        // 1. the linear counting threshold, from many zeros to none
        for i in 0..(2 * rounds) {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x0b);
            let mut s = Sc::new(&format!("threshold-p{}-{}", p, i), rng.next());
            let t = s.mk(Kind::Plus, p);
            let mut at = if p <= 15 {
                force_large(&mut s, t, p, &mut rng)
            } else {
                let n = (m - zthr as u64) / 2 * (1 + rng.below(2));
                let n = n.max(limit(p) / 2 + 2);
                let a = reg_run(Kind::Plus, p, 0, n, 1, &mut rng);
                s.ins(t, &[a], Order::Asc);
                n
            };
            s.cnt(t);
            // zero registers left after each step
            let mut stops: Vec<u64> = vec![m - at];
            for d in 0..4u64 {
                stops.push(zthr as u64 + 2 - d.min(zthr as u64 + 2));
            }
            for _ in 0..6 {
                stops.push(rng.below(m));
            }
            stops.extend([0, 1, 2, 3, m / 2, m / 4]);
            stops.sort_unstable();
            stops.dedup();
            stops.reverse();
            for z in stops {
                if m - z > at && m - z <= m {
                    let r = if rng.chance(60) { 1 } else { rng.range(1, 6) as u32 };
                    let a = reg_run(Kind::Plus, p, at, m - z - at, r, &mut rng);
                    s.ins(t, &[a], Order::Asc);
                    at = m - z;
                    s.cnt(t);
                }
            }
            s.end();
        }
        // 2. the bias tables: raw estimates from small to beyond 5m
        let table = &tables()[p as usize - 4];
        let mut targets: Vec<f64> = table.windows(2).map(|w| (w[0] + w[1]) / 2.0).collect();
        let last = table[table.len() - 1];
        targets.extend([last + 0.001 * mf, last + 0.03 * mf, 4.999 * mf, 5.001 * mf, 5.05 * mf, 5.3 * mf, 7.0 * mf]);
        targets.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // short segments where many registers are zero, longer ones later
        let mut segments: Vec<&[f64]> = Vec::new();
        let (low, high) = targets.split_at(60.min(targets.len()));
        segments.extend(low.chunks(if tier > 0 { 2 } else { 4 }));
        segments.extend(high.chunks(if p <= 10 { 12 } else { 24 }));
        let rounds2 = if p <= 7 { rounds * 4 } else { rounds };
        for rnd in 0..rounds2 {
            for (g, part) in segments.iter().enumerate() {
                let part: &[f64] = part;
                let idx = rnd * 100 + g as u64;
                if !mine(p, idx) {
                    continue;
                }
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (idx << 40) ^ 0x1b);
                let s_first = al * mf * mf / part[0];
                let s_last = al * mf * mf / part[part.len() - 1];
                // zero registers kept through the segment: with the others at
                // rank >= 1, z + (m-z)/2 >= s_first is needed to start there
                let zmin = (2.0 * s_first - mf).max(0.0).ceil();
                let zmax = (zthr - 1.0).min(s_last * 0.95).floor();
                if zmin > zmax {
                    continue;
                }
                let z = if rng.chance(40) && zmin == 0.0 {
                    0
                } else {
                    zmin as u64 + rng.below((zmax - zmin) as u64 + 1)
                };
                let k = m - z;
                let mut s = Sc::new(&format!("bias-p{}-{}", p, idx), rng.next());
                let t = s.mk(Kind::Plus, p);
                // buckets 0..k nonzero: the first `up` at rank r+1, the others at r
                let per = (s_first - z as f64) / k as f64;
                let mut r = ((-(per.log2())).floor() as u32).max(1);
                let base = reg_run(Kind::Plus, p, 0, k, r, &mut rng);
                s.ins(t, &[base], Order::Asc);
                // the registers alone may still fit the small form
                let ranks_touch = {
                    let d = dense_high(p, k, r, limit(p) + 1, &mut rng);
                    s.ins(t, &d, Order::Asc);
                    0u64
                };
                let mut up = ranks_touch;
                for x in part {
                    let want = al * mf * mf / x - z as f64;
                    loop {
                        let full = k as f64 * 2f64.powi(-(r as i32)) - up as f64 * 2f64.powi(-(r as i32) - 1);
                        let need = ((full - want) * 2f64.powi(r as i32 + 1)).round();
                        if need <= 0.0 {
                            break;
                        }
                        let n = (need as u64).min(k - up);
                        if n > 0 {
                            let a = reg_run(Kind::Plus, p, up, n, r + 1, &mut rng);
                            s.ins(t, &[a], Order::Asc);
                            up += n;
                        }
                        if up == k {
                            up = 0;
                            r += 1;
                        } else {
                            break;
                        }
                    }
                    s.cnt(t);
                }
                s.end();
            }
        }
        // 3. anything
        for i in 0..(4 * rounds) {
            if !mine(p, i + 2) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x2b);
            let mut s = Sc::new(&format!("cells-p{}-{}", p, i), rng.next());
            let t = s.mk(Kind::Plus, p);
            force_large_any(&mut s, t, p, &mut rng);
            s.cnt(t);
            for _ in 0..14 {
                let b0 = rng.below(m);
                let n = if rng.chance(30) { m - b0 } else { 1 + rng.below(m - b0) };
                let r = if rng.chance(60) { rng.range(1, 6) } else { rng.range(1, 65 - u64::from(p)) } as u32;
                let a = reg_run(Kind::Plus, p, b0, n, r, &mut rng);
                s.ins(t, &[a], Order::Shuffled);
                s.cnt(t);
            }
            s.end();
        }
    }
}

/// Entries beyond the limit that add nothing to registers that hold at least
/// rank r in the buckets 0..k.
fn dense_high(p: u8, k: u64, r: u32, bytes: u64, rng: &mut Rng) -> Vec<Atom> {
    let w = 25 - u32::from(p);
    let span = 1u64 << w;
    let mut out = Vec::new();
    if r >= w {
        return out; // flagged entries take 3 bytes or more anyway
    }
    // prefixes of rank exactly r: from 2^(w-r) up to 2^(w-r+1), one byte each
    let per = 1u64 << (w - r);
    let mut left = bytes;
    let mut b = 0;
    while left > 0 && b < k && out.len() < 40 {
        let take = left.min(per);
        out.push(Atom::run(Kind::Plus, p, b * span + per, 1, take, rng.range(1, 40) as u32));
        left -= take;
        b += 1;
    }
    if left > 0 {
        // two bytes per entry: another entry of rank r in every bucket
        out.clear();
        for j in 1..=4u64 {
            if j < per {
                out.push(Atom::run(Kind::Plus, p, per + j, span, k, 1));
            }
        }
    }
    out
}

pub fn force_large_any(s: &mut Sc, k: u32, p: u8, rng: &mut Rng) {
    if p <= 15 {
        force_large(s, k, p, rng);
    } else {
        let m = 1u64 << p;
        let n = limit(p) / 2 + 2 + rng.below(m / 16);
        let a = reg_run(Kind::Plus, p, rng.below(m - n), n, 1, rng);
        s.ins(k, &[a], Order::Asc);
    }
}

/// C12: register contents for the original estimator.
pub fn ranges(seed: u64, rounds: u64) {
    for p in 4..=16u8 {
        let m = 1u64 << p;
        let (mf, al) = (m as f64, alpha(m as f64));
        let maxr = 33 - u32::from(p);
        // straddle the limits of the three ranges
        for i in 0..(6 * rounds) {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x0c);
            let mut s = Sc::new(&format!("ranges-p{}-{}", p, i), rng.next());
            let t = s.mk(Kind::PF, p);
            let point = match i % 6 {
                0 | 1 => 2.5 * mf,
                2 => 4294967296.0 / 30.0,
                3 => 4294967296.0 * 0.99,
                4 => 4294967296.0 * rng.range(1, 90) as f64 / 100.0,
                _ => mf * rng.range(8, 4000) as f64 / 10.0,
            };
            let sum = al * mf * mf / point;
            let z = if rng.chance(50) && sum >= 2.0 { rng.below((sum * 0.9) as u64 + 1) } else { 0 };
            let z = if i % 6 == 1 { 0 } else { z };
            let k = m - z;
            let per = ((sum * 1.02 - z as f64) / k as f64).min(0.5);
            let mut r = ((-(per.log2())).floor() as u32).clamp(1, maxr - 1);
            let a = reg_run(Kind::PF, p, 0, k, r, &mut rng);
            s.ins(t, &[a], Order::Shuffled);
            s.cnt(t);
            let mut up = 0;
            let factors = [1.02, 1.004, 1.001, 1.0 + 2.0 / mf, 1.0, 1.0 - 2.0 / mf, 0.999, 0.996, 0.98, 0.9];
            for f in factors {
                let want = sum * f - z as f64;
                loop {
                    let full = k as f64 * 2f64.powi(-(r as i32)) - up as f64 * 2f64.powi(-(r as i32) - 1);
                    let need = ((full - want) * 2f64.powi(r as i32 + 1)).round();
                    if need <= 0.0 || r >= maxr {
                        break;
                    }
                    let n = (need as u64).min(k - up);
                    if n > 0 {
                        let a = reg_run(Kind::PF, p, up, n, r + 1, &mut rng);
                        s.ins(t, &[a], Order::Asc);
                        up += n;
                    }
                    if up == k {
                        up = 0;
                        r += 1;
                    } else {
                        break;
                    }
                }
                s.cnt(t);
            }
            s.end();
        }
        // anything, from empty to saturated
        for i in 0..(6 * rounds) {
            if !mine(p, i + 2) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x1c);
            let mut s = Sc::new(&format!("cells-pf-p{}-{}", p, i), rng.next());
            let t = s.mk(Kind::PF, p);
            s.cnt(t);
            for j in 0..25 {
                let (b0, n) = if rng.chance(30) {
                    (rng.below(m), 1)
                } else {
                    let b0 = rng.below(m);
                    (b0, 1 + rng.below(m - b0))
                };
                let r = match i % 3 {
                    0 => rng.range(1, u64::from(maxr)) as u32,
                    1 => (1 + j / 3).min(u64::from(maxr)) as u32,
                    _ => maxr - rng.below(3) as u32,
                };
                let a = reg_run(Kind::PF, p, b0, n, r, &mut rng);
                s.ins(t, &[a], Order::Shuffled);
                s.cnt(t);
            }
            for r in [maxr - 2, maxr - 1, maxr] {
                let a = reg_run(Kind::PF, p, 0, m, r, &mut rng);
                s.ins(t, &[a], Order::Asc);
                s.cnt(t);
            }
            s.end();
        }
        // linear counting at every fill
        if mine(p, 77) {
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ 0x2c);
            let mut s = Sc::new(&format!("fill-pf-p{}", p), rng.next());
            let t = s.mk(Kind::PF, p);
            let mut at = 0;
            for j in 1..=24u64 {
                let to = (m * j).div_ceil(24);
                if to > at {
                    let r = rng.range(1, 4) as u32;
                    let a = reg_run(Kind::PF, p, at, to - at, r, &mut rng);
                    s.ins(t, &[a], Order::Asc);
                    at = to;
                    s.cnt(t);
                }
            }
            s.end();
        }
    }
}

/// C17: entry sets with every gap size, compressed in several portions.
pub fn codec(seed: u64, rounds: u64) {
    for p in 7..=18u8 {
        let m = 1u64 << p;
        let w = 25 - u32::from(p);
        let span = 1u64 << w;
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x11);
            let mut s = Sc::new(&format!("codec-p{}-{}", p, i), rng.next());
            // a walk over the prefixes with chosen gaps
            let mut set: Vec<u64> = Vec::new();
            let first = match i % 4 {
                0 => 0,
                1 => rng.below(64),
                2 => rng.below(1 << 25),
                _ => (1 << 25) - 1 - rng.below(200),
            };
            let mut pre = first;
            set.push(prefix_hash(pre, rng.range(1, 40) as u32, rng.next()));
            let budget = limit(p).min(420);
            let cap = 110;
            for _ in 0..400 {
                if set.len() >= cap || enc_len(p, &set) + 6 > budget {
                    break;
                }
                // gap in the prefix; code gaps are twice (or 128 times) that
                let e = rng.below(22);
                let gap = match rng.below(5) {
                    0 => rng.below(4),
                    1 => 1 << e,
                    2 => (1 << e) - 1,
                    3 => (1 << e) + 1,
                    _ => rng.below(1 << e) + 1,
                };
                let mut q = pre + gap;
                if rng.chance(20) {
                    q = (q / span + 1) * span; // a flagged entry
                }
                if q >= 1 << 25 {
                    q = rng.below(1 << 25);
                }
                if rng.chance(5) {
                    q = (1 << 25) - 1;
                }
                let r = match rng.below(4) {
                    0 => 1,
                    1 => 40,
                    _ => rng.range(1, 40) as u32,
                };
                set.push(prefix_hash(q, r, rng.next()));
                if rng.chance(15) && q % span == 0 {
                    // neighbours that differ in the rank only
                    set.push(prefix_hash(q, rng.range(1, 40) as u32, rng.next()));
                }
                pre = q;
            }
            // in portions, in various orders, some of them through a merge
            let mut v: Vec<Atom> = set.iter().map(|h| Atom::H(*h)).collect();
            match i % 3 {
                0 => rng.shuffle(&mut v),
                1 => v.reverse(),
                _ => {}
            }
            let a = s.mk(Kind::Plus, p);
            let mut at = 0;
            while at < v.len() {
                let n = (1 + rng.below(1 + v.len() as u64 / 3) as usize).min(v.len() - at);
                let part = &v[at..at + n];
                at += n;
                match rng.below(4) {
                    0 => {
                        let b = s.mk(Kind::Plus, p);
                        s.ins(b, part, Order::Shuffled);
                        if rng.chance(50) {
                            s.cnt(b);
                        }
                        s.mrg(a, b);
                    }
                    1 => {
                        for h in part {
                            s.ins(a, std::slice::from_ref(h), Order::Asc);
                            if rng.chance(30) {
                                s.cnt(a);
                            }
                        }
                    }
                    _ => s.ins(a, part, Order::Asc),
                }
                s.cnt(a);
            }
            // every entry must still be there: nothing new when seen again
            s.ins(a, &v, Order::Shuffled);
            s.cnt(a);
            let a2 = s.reload(a, rng.below(FORMATS) as u8);
            let c = s.mk(Kind::Plus, p);
            s.mrg(c, a2);
            for h in v.iter().take(12) {
                s.ins(c, std::slice::from_ref(h), Order::Asc);
                s.cnt(c);
            }
            s.cnt(a2);
            // and after the switch: hide the other buckets, then look
            let mut keep: Vec<u64> = set.iter().map(|h| h >> (64 - p)).collect();
            keep.sort_unstable();
            keep.dedup();
            rng.shuffle(&mut keep);
            keep.truncate(14);
            let mut sorted = keep.clone();
            sorted.sort_unstable();
            let mask = mask_except(Kind::Plus, p, &sorted, &mut rng);
            let t = *rng.pick(&[a, a2, c]);
            s.ins(t, &mask, Order::Shuffled);
            s.cnt(t);
            for b in &keep {
                let h = reg_hash(Kind::Plus, p, *b, 65 - u32::from(p), &mut rng);
                s.ins(t, &[h], Order::Asc);
                s.cnt(t);
            }
            let _ = m;
            s.end();
        }
        // lists as long as they get: nearly the whole limit, in portions, then seen again
        for i in 0..rounds.div_ceil(4) {
            if !mine(p, i + 4) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x13);
            let mut s = Sc::new(&format!("long-p{}-{}", p, i), rng.next());
            let base = nearly_full(p, limit(p) - rng.range(8, 16).min(limit(p) / 2), &mut rng);
            let a = s.mk(Kind::Plus, p);
            let mut v = base.clone();
            if rng.chance(50) {
                rng.shuffle(&mut v);
            }
            for part in v.chunks(v.len().div_ceil(3)) {
                let o = *rng.pick(&[Order::Asc, Order::Desc, Order::Shuffled]);
                if rng.chance(40) {
                    let b = s.mk(Kind::Plus, p);
                    s.ins(b, part, o);
                    s.mrg(a, b);
                } else {
                    s.ins(a, part, o);
                }
                s.cnt(a);
            }
            s.ins(a, &v, Order::Shuffled);
            s.cnt(a);
            let f = rng.below(FORMATS) as u8;
            let a2 = s.reload(a, f);
            let c = s.mk(Kind::Plus, p);
            s.mrg(c, a2);
            s.cnt(c);
            s.ins(c, &v, Order::Asc);
            s.cnt(c);
            let h = rng.next();
            s.h(c, h);
            s.cnt(c);
            s.end();
        }
        // long lists: runs with a constant gap, merged with each other
        for i in 0..rounds.div_ceil(2) {
            if !mine(p, i + 1) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x12);
            let mut s = Sc::new(&format!("runs-p{}-{}", p, i), rng.next());
            let a = s.mk(Kind::Plus, p);
            let mut n_all = 0;
            for _ in 0..4 {
                let b0 = rng.below(m / 2);
                let r = if rng.chance(50) { rng.range(1, u64::from(w)) } else { rng.range(u64::from(w), 64 - u64::from(p)) };
                let n = (limit(p) / 16).clamp(1, 1400).min(m - b0);
                let run = reg_run(Kind::Plus, p, b0, n, r as u32, &mut rng);
                n_all += n;
                if rng.chance(50) {
                    let o = *rng.pick(&[Order::Asc, Order::Desc, Order::Shuffled]);
                    s.ins(a, &[run], o);
                } else {
                    let b = s.mk(Kind::Plus, p);
                    s.ins(b, &[run], Order::Shuffled);
                    s.mrg(a, b);
                }
                s.cnt(a);
                let _ = n_all;
            }
            s.end();
        }
    }
}

/// C13: adversarial input; only sanity is demanded.
pub fn extreme(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        let m = 1u64 << p;
        let maxr = max_rank(kind, p);
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x0d);
            let mut s = Sc::new(&format!("extreme-{}-p{}-{}", kn(kind), p, i), rng.next());
            let mut ks: Vec<u32> = (0..3).map(|_| s.mk(kind, p)).collect();
            for k in ks.clone() {
                s.cnt(k);
                s.cnt(k);
            }
            // empty sketches, merged, copied and reloaded, stay empty
            s.mrg(ks[0], ks[1]);
            s.cnt(ks[0]);
            let c = s.cln(ks[0]);
            s.cnt(c);
            let c = s.reload(ks[1], rng.below(FORMATS) as u8);
            s.cnt(c);
            let q = if p == 4 { 5 } else { p - 1 };
            let other = s.mk(kind, q);
            s.h(other, rng.next());
            s.mrg(c, other);
            s.cnt(c);
            // sketches that have everything they hold from one merge
            let l = limit(p) as usize;
            for n in [1, 1 + rng.below(1 + limit(p) / 100) as usize, l / 9 + 2, 3 * l] {
                if n > 40_000 && !rng.chance(40) {
                    continue;
                }
                let src = s.mk(kind, p);
                let v = hashes(kind, p, *rng.pick(&STYLES), n, &mut rng);
                s.ins(src, &[x(format!("only{}", n), v)], Order::Shuffled);
                if rng.chance(50) {
                    // nothing of it processed yet, or some
                    s.cnt(src);
                    if rng.chance(50) {
                        let h = rng.next();
                        s.h(src, h);
                    }
                }
                let (t, u) = (s.mk(kind, p), s.mk(kind, p));
                if rng.chance(30) {
                    s.cnt(t);
                }
                s.mrg(t, src);
                if rng.chance(50) {
                    s.cnt(t);
                }
                s.mrg(u, t);
                match rng.below(4) {
                    0 => {
                        let c = s.cln(u);
                        s.cnt(c);
                    }
                    1 => {
                        let c = s.reload(t, rng.below(FORMATS) as u8);
                        s.cnt(c);
                    }
                    _ => {}
                }
                s.cnt(u);
                s.cnt(t);
            }
            let steps = if p > 14 { 10 } else { 22 };
            for _ in 0..steps {
                let j = rng.below(ks.len() as u64) as usize;
                let k = ks[j];
                match rng.below(16) {
                    0 | 1 => {
                        let h = *rng.pick(&[0, u64::MAX, 1, 1 << 63, u64::MAX >> 1, 0xffff_ffff, 0xffff_ffff_0000_0000]);
                        s.h(k, h);
                    }
                    2 | 3 => {
                        let h = edge_hash(kind, p, &mut rng);
                        s.h(k, h);
                    }
                    4 => {
                        // every bucket at one rank
                        let r = *rng.pick(&[1, 2, maxr - 1, maxr, maxr, maxr / 2]);
                        let v: Vec<u64> = (0..m)
                            .map(|b| match kind {
                                Kind::Plus => plus_hash(p, b, r, b),
                                Kind::PF => pf_hash(p, b, r, b),
                            })
                            .collect();
                        s.ins(k, &[x(format!("sat{}", r), v)], Order::Shuffled);
                    }
                    5 => {
                        // all but one bucket, or a single one
                        let b0 = rng.below(m);
                        let r = rng.range(1, u64::from(maxr)) as u32;
                        let v: Vec<u64> = (0..m)
                            .filter(|b| *b != b0)
                            .map(|b| match kind {
                                Kind::Plus => plus_hash(p, b, r, b),
                                Kind::PF => pf_hash(p, b, r, b),
                            })
                            .collect();
                        s.ins(k, &[x(format!("but{}-{}", b0, r), v)], Order::Asc);
                    }
                    6 => {
                        // one bucket, all prefixes or ranks
                        let b = rng.below(m) << (64 - p);
                        let n = limit(p).min(30_000) + 5;
                        let v: Vec<u64> = (0..n).map(|j| b | (j << 39) & ((1 << (64 - p)) - 1) | (j << 7)).collect();
                        s.ins(k, &[x(format!("bucket{}", b), v)], Order::Desc);
                    }
                    7 => {
                        // one prefix, all ranks
                        let pre = rng.below(1 << 25);
                        let v: Vec<u64> = (1..=40).map(|r| prefix_hash(pre, r, r.into())).collect();
                        s.ins(k, &[x(format!("pre{}", pre), v)], Order::Shuffled);
                    }
                    8 => {
                        // the last codes
                        let n = limit(p).min(3000) / 2;
                        let v: Vec<u64> = (0..n).map(|j| u64::MAX - (j << 39)).collect();
                        s.ins(k, &[x("last".into(), v)], Order::Asc);
                    }
                    9 => {
                        let n = rng.below(6 * m.min(40_000)) + 1;
                        let v = hashes(kind, p, Style::Uniform, n as usize, &mut rng);
                        s.ins(k, &[x(format!("uni{}", n), v)], Order::Asc);
                    }
                    10 => {
                        let j2 = rng.below(ks.len() as u64) as usize;
                        s.mrg(k, ks[j2]);
                    }
                    11 => {
                        let f = rng.below(FORMATS) as u8;
                        let c = s.reload(k, f);
                        if p <= 14 || rng.chance(40) {
                            ks[j] = c;
                        }
                    }
                    12 => {
                        let c = s.cln(k);
                        ks.push(c);
                    }
                    13 => {
                        let n = s.mk(kind, p);
                        s.cnt(n);
                        ks.push(n);
                    }
                    14 => {
                        // a long repetition of one hash
                        let h = edge_hash(kind, p, &mut rng);
                        s.ins(k, &[x(format!("rep{:x}", h), vec![h; 2000])], Order::Asc);
                    }
                    _ => {
                        let gap = 1u64 << rng.range(32, 62);
                        let start = rng.next();
                        let v: Vec<u64> = (0..500).map(|j: u64| start.wrapping_add(j.wrapping_mul(gap))).collect();
                        s.ins(k, &[x(format!("arith{}-{:x}", gap, start), v)], Order::Asc);
                    }
                }
                s.cnt(k);
                let any = ks[rng.below(ks.len() as u64) as usize];
                s.cnt(any);
            }
            s.end();
        }
    }
}

/// C16: the saved size after every step.
pub fn sizes(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        let m = 1u64 << p;
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x10);
            let mut s = Sc::new(&format!("size-{}-p{}-{}", kn(kind), p, i), rng.next());
            let mut ks: Vec<u32> = (0..3).map(|_| s.mk(kind, p)).collect();
            let steps = if p > 14 { 24 } else { 40 };
            let mode = i % 4;
            for t in 0..steps {
                let j = rng.below(ks.len() as u64) as usize;
                let k = ks[j];
                let portion = limit(p) / 100;
                match rng.below(12) {
                    0..=4 => {
                        let n = match mode {
                            0 => rng.range(1, 2 + portion * 2),
                            1 => rng.range(1, 2 + portion),
                            2 => rng.range(1, m),
                            _ => *rng.pick(&[1, portion.max(1), portion + 1, portion + 2, m / 8 + 1]),
                        };
                        let st = *rng.pick(&STYLES);
                        let v = hashes(kind, p, st, n as usize, &mut rng);
                        let o = *rng.pick(&[Order::Asc, Order::Desc, Order::Shuffled, Order::Twice]);
                        s.ins(k, &[x(format!("g{}", t), v)], o);
                    }
                    5 | 6 => {
                        let j2 = rng.below(ks.len() as u64) as usize;
                        s.mrg(k, ks[j2]);
                        s.siz(ks[j2]);
                    }
                    7 => {
                        s.cnt(k);
                    }
                    8 => {
                        let f = rng.below(FORMATS) as u8;
                        ks[j] = s.reload(k, f);
                    }
                    9 => {
                        let c = s.cln(k);
                        ks.push(c);
                        s.siz(c);
                    }
                    10 => {
                        // many sketches with few elements, one after the other
                        for _ in 0..(3 + portion.min(60)) {
                            let b = s.mk_u(kind, p);
                            let n = rng.range(1, 1 + portion.min(50)) as usize;
                            let v = hashes(kind, p, Style::Uniform, n, &mut rng);
                            s.ins(b, &[x(format!("m{}-{:x}", t, v[0]), v)], Order::Asc);
                            s.mrg(k, b);
                            s.siz(k);
                        }
                    }
                    _ => {
                        for _ in 0..12 {
                            let h = edge_hash(kind, p, &mut rng);
                            s.h(k, h);
                            s.siz(k);
                        }
                    }
                }
                s.siz(k);
                s.siz(ks[j]);
            }
            s.end();
        }
        // lists merged one after the other, each behind, before or among the others
        if kind == Kind::Plus && mine(p, 1000) {
            for way in 0..4u64 {
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (way << 50) ^ 0x1011);
                let mut s = Sc::new(&format!("rows-plus-p{}-{}", p, way), rng.next());
                let span = 1u64 << (25 - p);
                let each = (limit(p) / *rng.pick(&[4, 7, 12])).max(1);
                let lists = 3 * limit(p) / each + 8;
                let (mut lo, step) = (rng.below(1 << 18), rng.range(1, 5));
                // all unflagged, so that codes are ordered like prefixes, or
                // all flagged
                let flagged = each * lists * span < (1 << 25) && rng.chance(30);
                let mut parts: Vec<Vec<u64>> = (0..lists)
                    .map(|_| {
                        (0..each)
                            .map(|_| {
                                if flagged {
                                    lo += span - lo % span;
                                } else {
                                    lo += step;
                                    if lo % span == 0 {
                                        lo += 1;
                                    }
                                }
                                prefix_hash(lo % (1 << 25), 1, lo)
                            })
                            .collect()
                    })
                    .collect();
                match way {
                    1 => parts.reverse(),
                    2 => rng.shuffle(&mut parts),
                    _ => {}
                }
                let a = s.mk(kind, p);
                let mut b = s.mk(kind, p);
                for (i, v) in parts.into_iter().enumerate() {
                    let t = s.mk_u(kind, p);
                    s.ins(t, &[x(format!("row{}", i), v)], Order::Shuffled);
                    if !rng.chance(10) {
                        s.cnt(t);
                    }
                    s.mrg(a, t);
                    s.siz(a);
                    if way == 3 {
                        // and the longer one into the shorter one
                        s.mrg(t, b);
                        s.siz(t);
                        b = t;
                        if rng.chance(20) {
                            s.cnt(b);
                        }
                    }
                }
                s.end();
            }
        }
        // towards the limit in small steps, with most entries in the list
        if kind == Kind::Plus && mine(p, 2000) {
            let portion = (limit(p) / 100).max(1);
            for gap in [1u64, 3] {
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (gap << 50) ^ 0x1010);
                let mut s = Sc::new(&format!("grow-plus-p{}-{}", p, gap), rng.next());
                let k = s.mk(kind, p);
                let mut all: Vec<u64> = Vec::new();
                let mut at = rng.below(1 << 20);
                let mut past = 0;
                while past < 30 {
                    let left = limit(p).saturating_sub(enc_len(p, &all));
                    let n = if left > 6 * portion { left - 5 * portion } else { (portion / 16).max(1) };
                    let n = if gap == 3 { n.div_ceil(2) } else { n };
                    let v: Vec<u64> = (0..n).map(|j| prefix_hash((at + j * gap) % (1 << 25), 1, j)).collect();
                    at += n * gap;
                    all.extend(v.iter());
                    s.ins(k, &[x(format!("s{}", at), v)], *rng.pick(&[Order::Asc, Order::Shuffled]));
                    if left <= 6 * portion {
                        s.siz(k);
                    }
                    if left == 0 {
                        past += 1;
                    }
                }
                s.end();
            }
        }
    }
}

/// C21: what a sketch holds over long histories.
pub fn memory(kind: Kind, seed: u64, rounds: u64) {
    for p in precisions(kind) {
        let m = 1u64 << p;
        for i in 0..rounds {
            if !mine(p, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x21);
            let mut s = Sc::new(&format!("memory-{}-p{}-{}", kn(kind), p, i), rng.next());
            let mut ks: Vec<u32> = (0..2).map(|_| s.mk(kind, p)).collect();
            // a sketch whose list is nearly full, of the shortest entries
            let full = s.mk_u(kind, p);
            let v: Vec<u64> = (0..limit(p) - limit(p) / 50).map(|j| prefix_hash(j, 1, j)).collect();
            s.ins(full, &[x("full".into(), v)], Order::Asc);
            s.cnt(full);
            s.siz(full);
            for t in 0..18 {
                let j = rng.below(ks.len() as u64) as usize;
                let k = ks[j];
                match if t == 1 { 8 } else { rng.below(10) } {
                    8 => {
                        // the same operation again and again, on a sketch that
                        // is small in one scenario of two at the least
                        let k = if t == 1 { s.mk(kind, p) } else { k };
                        if t == 1 && rng.chance(70) {
                            let n = rng.range(1, limit(p) / 12 + 1) as usize;
                            let v = hashes(kind, p, Style::Uniform, n, &mut rng);
                            s.ins(k, &[x(format!("again{}", t), v)], Order::Asc);
                            s.cnt(k);
                        }
                        let b = s.mk_u(kind, p);
                        if rng.chance(60) {
                            let h = rng.next();
                            s.h(b, h);
                            if rng.chance(50) {
                                s.cnt(b);
                            }
                        }
                        for what in [0, rng.range(1, 4)] {
                            for _ in 0..400 {
                                match what {
                                    0 => {
                                        s.mrg(k, b);
                                    }
                                    1 => {
                                        s.cnt(k);
                                    }
                                    2 => s.h(k, 1),
                                    3 => {
                                        s.mrg(b, k);
                                        s.mrg(k, b);
                                    }
                                    _ => {
                                        s.assign(k, b);
                                        s.mrg(k, b);
                                    }
                                }
                            }
                            s.siz(k);
                            s.siz(b);
                        }
                    }
                    0 => {
                        // many different elements
                        let n = (rng.range(1, 6) * m).max(rng.below(60_000));
                        let r = rng.next();
                        let v: Vec<u64> = (0..n).map(|q| Rng::new(r ^ (q << 20)).next()).collect();
                        s.ins(k, &[x(format!("many{}", t), v)], Order::Asc);
                    }
                    1 => {
                        // the same few again and again
                        let v = hashes(kind, p, Style::Uniform, 7, &mut rng);
                        let v: Vec<u64> = (0..30_000).map(|q| v[q % 7]).collect();
                        s.ins(k, &[x(format!("same{}", t), v)], Order::Asc);
                    }
                    2 => {
                        // estimates in between
                        for _ in 0..60 {
                            let h = rng.next();
                            s.h(k, h);
                            s.cnt(k);
                        }
                    }
                    3 => {
                        s.mrg(k, full);
                    }
                    4 => {
                        // many merges
                        for q in 0..25 {
                            let b = s.mk_u(kind, p);
                            let n = rng.range(1, 1 + m / 16) as usize;
                            let v = hashes(kind, p, Style::Uniform, n, &mut rng);
                            s.ins(b, &[x(format!("m{}-{}", t, q), v)], Order::Asc);
                            if rng.chance(50) {
                                s.cnt(b);
                            }
                            s.mrg(k, b);
                        }
                    }
                    5 => {
                        let j2 = rng.below(ks.len() as u64) as usize;
                        s.mrg(k, ks[j2]);
                    }
                    6 => {
                        let c = if rng.chance(50) { s.cln(k) } else { s.reload(k, rng.below(FORMATS) as u8) };
                        ks[j] = c;
                    }
                    7 => {
                        // one after the other of what it had
                        for _ in 0..4 {
                            let c = s.reload(ks[j], 1);
                            s.siz(c);
                            s.assign(c, ks[j]);
                        }
                    }
                    _ => {
                        let v: Vec<u64> = (0..m / 8 + 2000).map(|_| edge_hash(kind, p, &mut rng)).collect();
                        s.ins(k, &[x(format!("edges{}", t), v)], Order::Asc);
                    }
                }
                s.siz(ks[j]);
                if ks[j] != k {
                    s.siz(k);
                }
            }
            s.end();
        }
    }
}

/// Sketches of several precisions and of both kinds, used in turns, that agree
/// in what their estimates are made of: the number of empty registers, the
/// registers' sum, the number of entries, the length of the list.
pub fn mixed(kind: Kind, seed: u64, rounds: u64) {
    for i in 0..rounds {
        for base in [4u8, 5, 6, 7, 8, 9, 10, 11] {
            if !mine(base, i) {
                continue;
            }
            let mut rng = Rng::new(seed ^ (u64::from(base) << 32) ^ (i << 40) ^ 0x4d);
            let mut s = Sc::new(&format!("mixed-{}-p{}-{}", kn(kind), base, i), rng.next());
            let other = if kind == Kind::Plus { Kind::PF } else { Kind::Plus };
            let mut ks: Vec<u32> = Vec::new();
            let m0 = 1u64 << base;
            // what they agree in
            let z = match rng.below(4) {
                0 => 1 + rng.below(3),
                1 => m0 - 1 - rng.below(m0 / 4),
                _ => 1 + rng.below(m0 - 2),
            };
            let n = 1 + rng.below(limit(base) / 3 + 1).min(40);
            let r = 1 + rng.below(3) as u32;
            for j in 0..7u64 {
                let kd = if rng.chance(25) { other } else { kind };
                let p = (base + rng.below(3) as u8).min(if kd == Kind::PF { 16 } else { 18 });
                let m = 1u64 << p;
                let k = s.mk(kd, p);
                match (i + j / 4) % 3 {
                    // the number of empty registers
                    0 => {
                        if kd == Kind::Plus {
                            force_large(&mut s, k, p, &mut rng);
                        }
                        let rank = rng.range(1, 9) as u32;
                        let a = reg_run(kd, p, 0, m - z, rank, &mut rng);
                        s.ins(k, &[a], Order::Shuffled);
                    }
                    // the sum, all registers at m/m0 times 2^-r each, or some
                    // of them exchanged for another and two of less
                    1 => {
                        if kd == Kind::Plus {
                            force_large(&mut s, k, p, &mut rng);
                        }
                        let rank = r + 20.min(u32::from(p - base)) + 8;
                        let a = reg_run(kd, p, 0, m, rank, &mut rng);
                        s.ins(k, &[a], Order::Shuffled);
                        if rng.chance(50) {
                            let b = rng.below(m - 2);
                            let a = reg_run(kd, p, b, 1, rank + 1 + rng.below(2) as u32, &mut rng);
                            s.ins(k, &[a], Order::Asc);
                        }
                    }
                    // the number of entries
                    _ => {
                        let mut v = hashes(kd, p, *rng.pick(&STYLES), 2 * n as usize, &mut rng);
                        v.sort_by_key(|h| code(p, *h));
                        v.dedup_by_key(|h| code(p, *h));
                        rng.shuffle(&mut v);
                        v.truncate(n as usize);
                        let v: Vec<Atom> = v.into_iter().map(Atom::H).collect();
                        s.ins(k, &v, Order::Shuffled);
                    }
                }
                ks.push(k);
            }
            for _ in 0..45 {
                let k = *rng.pick(&ks);
                match rng.below(20) {
                    0 => {
                        let (kd, p) = s.kind(k);
                        let h = edge_hash(kd, p, &mut rng);
                        s.h(k, h);
                    }
                    1 => {
                        let b = *rng.pick(&ks);
                        if b != k && s.kind(b).0 == s.kind(k).0 {
                            s.mrg(k, b);
                        }
                    }
                    2 => {
                        let c = s.cln(k);
                        s.cnt(c);
                    }
                    _ => {
                        s.cnt(k);
                    }
                }
            }
            // and so do others that hold the same
            let mut all = ks.clone();
            for k in &ks {
                all.push(s.control(*k));
            }
            for _ in 0..2 {
                rng.shuffle(&mut all);
                for k in &all {
                    s.cnt(*k);
                }
            }
            s.end();
        }
    }
}
