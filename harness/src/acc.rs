//! Estimates of sets of random hashes (C19).
use crate::hashers::Rng;
use crate::memo::precisions;
use crate::sk::*;
use crate::world::*;

/// Cardinalities at which to look.
fn points(p: u8) -> Vec<u64> {
    let m = 1u64 << p;
    let mut v: Vec<u64> = vec![
        1, 2, 3, 5, 10, m / 40, m / 20, m / 10, m / 7, m / 5, m / 4, m / 3, m / 2, 2 * m / 3, m, 5 * m / 4,
        3 * m / 2, 7 * m / 4, 2 * m, 5 * m / 2, 3 * m, 7 * m / 2, 4 * m, 9 * m / 2, 5 * m, 6 * m, 8 * m,
    ];
    if p <= 14 {
        v.extend([12 * m, 20 * m]);
    }
    v.retain(|x| *x > 0);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn acc(seed: u64, n: u64) {
    for kind in [Kind::Plus, Kind::PF] {
        for p in precisions(kind) {
            // one process per kind and precision (and part, for the big ones)
            let runs = match p {
                4..=9 => 1600,
                10..=12 => 480,
                13..=14 => 240,
                15..=16 => 80,
                _ => 40,
            } * n;
            let parts = 8;
            for part in 0..parts {
                if !mine(p, part) {
                    continue;
                }
                let pts = points(p);
                let mut es: Vec<Vec<f64>> = vec![Vec::new(); pts.len()];
                let name = if kind == Kind::Plus { "plus" } else { "pf" };
                let id = format!("acc-{}-p{}-{}", name, p, part);
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (part << 40) ^ 0x19);
                let mut panicked = false;
                for _ in 0..runs / parts {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut s = Sk::new(kind, Ty::U64, p, 0).unwrap();
                        let mut c = 0;
                        let mut out = Vec::new();
                        for pt in &pts {
                            while c < *pt {
                                s.insert(rng.next(), Api::Insert);
                                c += 1;
                            }
                            out.push(s.count());
                        }
                        out
                    }));
                    match r {
                        Ok(v) => {
                            for (i, e) in v.into_iter().enumerate() {
                                es[i].push(e);
                            }
                        }
                        Err(_) => panicked = true,
                    }
                }
                let ev: Vec<String> = pts
                    .iter()
                    .zip(es)
                    .map(|(n, e)| {
                        let nf = *n as f64;
                        let sum: f64 = e.iter().map(|e| e / nf - 1.0).sum();
                        let sq: f64 = e.iter().map(|e| (e / nf - 1.0).powi(2)).sum();
                        format!(
                            r#"{{"op":"acc","kind":"{}","p":{},"n":{},"ok":{},"runs":{},"sum":{},"sq":{}}}"#,
                            name,
                            p,
                            n,
                            !panicked,
                            e.len(),
                            jf(sum),
                            jf(sq)
                        )
                    })
                    .collect();
                raw_line(&id, &ev);
            }
        }
    }
}

fn jf(x: f64) -> String {
    let b = x.to_bits();
    format!("[{},{}]", (b >> 32) as u32 as i32, b as u32 as i32)
}
