//! Material for scenarios: hash lists and masks.  Nothing here judges.
use crate::hashers::Rng;
use crate::sk::Kind;
use crate::world::*;
use std::sync::Arc as Rc;

pub fn limit(p: u8) -> u64 {
    4 * (1u64 << p) / 5
}

pub fn code(p: u8, h: u64) -> u64 {
    let pre = h >> 39;
    if pre & ((1 << (25 - p)) - 1) == 0 {
        let rest = h << 25;
        let r = if rest == 0 { 40 } else { 1 + rest.leading_zeros() as u64 };
        (pre << 7) | (r << 1) | 1
    } else {
        pre << 1
    }
}

/// Bytes the hashes' entries would take (a planning aid for generators; what
/// the specification says is in HLLRuns.tla).
pub fn enc_len(p: u8, hashes: &[u64]) -> u64 {
    let mut c: Vec<u64> = hashes.iter().map(|h| code(p, *h)).collect();
    c.sort_unstable();
    c.dedup();
    let (mut last, mut n) = (0, 0);
    for x in c {
        let mut d = x - last;
        last = x;
        n += 1;
        while d >= 128 {
            d >>= 7;
            n += 1;
        }
    }
    n
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Uniform,
    Dense,
    Flagged,
    SamePrefix,
    Edges,
    Mixed,
}
pub const STYLES: [Style; 6] =
    [Style::Uniform, Style::Dense, Style::Flagged, Style::SamePrefix, Style::Edges, Style::Mixed];

pub fn edge_hash(kind: Kind, p: u8, rng: &mut Rng) -> u64 {
    let m = 1u64 << p;
    match rng.below(9) {
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << rng.below(64),
        3 => (1u64 << rng.range(1, 63)) - 1,
        4 => !((1u64 << rng.range(1, 63)) - 1),
        5 | 6 => {
            // a chosen bucket and rank
            let b = *rng.pick(&[0, 1, 4, 5, 6, m / 2, m - 2, m - 1]);
            let b = if rng.chance(50) { b } else { rng.below(m) };
            match kind {
                Kind::Plus => plus_hash(p, b, rng.range(1, 65 - p as u64) as u32, rng.next()),
                Kind::PF => pf_hash(p, b, rng.range(1, 33 - p as u64) as u32, rng.next()),
            }
        }
        7 => prefix_hash(rng.below(1 << 25), rng.range(1, 40) as u32, rng.next()),
        _ => {
            let span = 1u64 << (25 - p.min(24));
            prefix_hash(rng.below(m) * span, rng.range(1, 40) as u32, rng.next())
        }
    }
}

/// n hashes in the given style.
pub fn hashes(kind: Kind, p: u8, style: Style, n: usize, rng: &mut Rng) -> Vec<u64> {
    let m = 1u64 << p;
    let span = 1u64 << (25 - p);
    let start = rng.below(1 << 25);
    (0..n as u64)
        .map(|i| {
            let st = if style == Style::Mixed {
                STYLES[rng.below(5) as usize]
            } else {
                style
            };
            match st {
                Style::Uniform | Style::Mixed => rng.next(),
                Style::Dense => prefix_hash((start + i) % (1 << 25), rng.range(1, 40) as u32, rng.next()),
                Style::Flagged => {
                    let b = if rng.chance(50) { rng.below(m) } else { rng.below(8.min(m)) };
                    prefix_hash(b * span, rng.range(1, 40) as u32, rng.next())
                }
                Style::SamePrefix => {
                    prefix_hash((start + i / 5) % (1 << 25), rng.range(1, 40) as u32, rng.next())
                }
                Style::Edges => edge_hash(kind, p, rng),
            }
        })
        .collect()
}

/// Hashes whose compressed size approaches `bytes` (a little below or above).
pub fn fill(p: u8, style: Style, bytes: u64, rng: &mut Rng) -> Vec<u64> {
    let mut v: Vec<u64> = Vec::new();
    let mut step = (bytes / 4).max(1) as usize;
    let mut rounds = 0;
    while rounds < 60 {
        let mut w = v.clone();
        w.extend(hashes(Kind::Plus, p, style, step, rng));
        if enc_len(p, &w) <= bytes {
            v = w;
        } else if step == 1 {
            break;
        } else {
            step = (step / 2).max(1);
        }
        rounds += 1;
    }
    v
}

/// A set of hashes as one atom.  Its contents are part of its name: no two
/// different sets ever pass for the same one.
pub fn x(name: String, v: Vec<u64>) -> Atom {
    let (mut n, mut a, mut b) = (0u64, 0u64, 0u64);
    let mut w = v.clone();
    w.sort_unstable();
    w.dedup();
    for h in w {
        let z = (h ^ (h >> 31)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let z = (z ^ (z >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        n += 1;
        a = a.wrapping_add(z ^ (z >> 32));
        b ^= z.rotate_left(17);
    }
    Atom::X(format!("{}.{:x}.{:x}", name, n, a ^ b.rotate_left(32)), Rc::new(v))
}

/// The rank used to hide a bucket.
pub fn mask_rank(kind: Kind, p: u8) -> u32 {
    match kind {
        Kind::Plus => 65 - p as u32,
        Kind::PF => 32 - p as u32,
    }
}

pub fn hide(kind: Kind, p: u8, b: u64) -> u64 {
    match kind {
        Kind::Plus => plus_hash(p, b, mask_rank(kind, p), b),
        Kind::PF => pf_hash(p, b, mask_rank(kind, p), b),
    }
}

/// Masks that uncover the registers of interest step by step: first a random
/// half, then everything except up to `n` buckets, then these one by one.
pub fn masks(kind: Kind, p: u8, interesting: &[u64], n: usize, rng: &mut Rng) -> Vec<Atom> {
    let m = 1u64 << p;
    let mut keep: Vec<u64> = interesting.to_vec();
    rng.shuffle(&mut keep);
    keep.sort_unstable_by_key(|_| 0);
    keep.dedup();
    keep.truncate(n / 2 + 1);
    while keep.len() < n.min(m as usize) {
        let b = rng.below(m);
        if !keep.contains(&b) {
            keep.push(b);
        }
    }
    let mut uniq = Vec::new();
    for b in keep {
        if !uniq.contains(&b) {
            uniq.push(b);
        }
    }
    let tag = rng.next() & 0xffff_ffff;
    let mut out = Vec::new();
    let half: Vec<u64> = (0..m)
        .filter(|b| !uniq.contains(b) && rng.chance(50))
        .map(|b| hide(kind, p, b))
        .collect();
    if !half.is_empty() {
        out.push(x(format!("half{:x}", tag), half));
    }
    let rest: Vec<u64> =
        (0..m).filter(|b| !uniq.contains(b)).map(|b| hide(kind, p, b)).collect();
    if !rest.is_empty() {
        out.push(x(format!("rest{:x}", tag), rest));
    }
    for b in uniq.iter().skip(1) {
        out.push(Atom::H(hide(kind, p, *b)));
    }
    out
}

pub fn bucket(kind: Kind, p: u8, h: u64) -> u64 {
    match kind {
        Kind::Plus => h >> (64 - p),
        Kind::PF => (h & 0xffff_ffff) >> (32 - p),
    }
}

pub fn buckets_of(kind: Kind, p: u8, atoms: &[Atom], rng: &mut Rng, n: usize) -> Vec<u64> {
    let mut v = Vec::new();
    for a in atoms {
        let hs = a.hashes();
        if hs.is_empty() {
            continue;
        }
        for _ in 0..4 {
            v.push(bucket(kind, p, hs[rng.below(hs.len() as u64) as usize]));
        }
    }
    rng.shuffle(&mut v);
    v.truncate(n);
    v
}

/// Splits a list into groups (opaque atoms) and single hashes.
pub fn groups(name: &str, mut v: Vec<u64>, k: usize, singles: usize, rng: &mut Rng) -> Vec<Atom> {
    let mut out = Vec::new();
    if rng.chance(60) {
        rng.shuffle(&mut v);
    }
    for _ in 0..singles {
        if let Some(h) = v.pop() {
            out.push(Atom::H(h));
        }
    }
    let mut i = 0;
    let tag = rng.next() & 0xffff_ffff;
    while !v.is_empty() && i < k {
        let take = if i + 1 == k { v.len() } else { (1 + rng.below(v.len() as u64)) as usize };
        let rest = v.split_off(take);
        out.push(x(format!("{}{}_{:x}", name, i, tag), v));
        v = rest;
        i += 1;
    }
    rng.shuffle(&mut out);
    out
}
