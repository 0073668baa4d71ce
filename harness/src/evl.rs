//! Inputs for the evaluation program, and what the library says of each of
//! their prefixes (C18).
use crate::est::max_rank;
use crate::gen::*;
use crate::hashers::Rng;
use crate::sk::*;
use crate::world::*;
use std::io::Write;

pub fn evl(seed: u64, n: u64, dir: &str) {
    for kind in [Kind::Plus, Kind::PF] {
        let (name, ps): (&str, &[u8]) = match kind {
            Kind::Plus => ("hllp", &[4, 5, 7, 10, 12, 14, 18]),
            Kind::PF => ("hll", &[4, 6, 8, 11, 14, 16]),
        };
        for p in ps {
            let p = *p;
            // 900: every bucket up to its highest rank, 901: many lines
            let mut ids: Vec<u64> = (0..n).collect();
            if p <= 5 || (kind == Kind::PF && p == 6) {
                ids.extend([900, 901]);
            }
            for i in ids {
                if !mine(p, i) {
                    continue;
                }
                let mut rng = Rng::new(seed ^ (u64::from(p) << 32) ^ (i << 40) ^ 0x18);
                let id = format!("{}-p{}-f{}", name, p, i);
                let style = if i % 2 == 0 { Style::Uniform } else { *rng.pick(&STYLES) };
                let count = match i % 4 {
                    0 => rng.range(300, 900),
                    1 => rng.range(20, 300),
                    2 => rng.range(1, 3),
                    _ => rng.range(0, 40),
                };
                let mut v = match i {
                    900 => (1u64..=u64::from(max_rank(kind, p)))
                        .step_by(7)
                        .chain([u64::from(max_rank(kind, p))])
                        .flat_map(|r| (0..1u64 << p).map(move |b| (r as u32, b)))
                        .map(|(r, b)| match kind {
                            Kind::Plus => plus_hash(p, b, r, b),
                            Kind::PF => pf_hash(p, b, r, b) & 0xffff_ffff,
                        })
                        .collect(),
                    901 => {
                        let few = hashes(kind, p, Style::Uniform, 40, &mut rng);
                        let mut v: Vec<u64> = (0..11_000).map(|_| few[rng.below(20) as usize]).collect();
                        v.extend(&few);
                        v
                    }
                    _ => hashes(kind, p, style, count as usize, &mut rng),
                };
                // repetitions and extremes
                for _ in 0..v.len() / 10 {
                    let (a, b) = (rng.below(v.len() as u64), rng.below(v.len() as u64));
                    v[a as usize] = v[b as usize];
                }
                if v.len() > 10 {
                    v[3] = 0;
                    v[7] = u64::MAX;
                    v[8] = 1;
                }
                if kind == Kind::PF {
                    for x in v.iter_mut() {
                        *x &= 0xffff_ffff;
                    }
                }
                let mut f = std::io::BufWriter::new(
                    std::fs::File::create(format!("{}/{}.dat", dir, id)).unwrap(),
                );
                // lines as text files have them: also without the last end,
                // and with carriage returns
                let end = if i % 5 == 4 { "\r\n" } else { "\n" };
                for (j, x) in v.iter().enumerate() {
                    let last = i % 3 == 1 && j + 1 == v.len();
                    write!(f, "{}{}", x, if last { "" } else { end }).unwrap();
                }
                f.flush().unwrap();
                let mut s = Sc::new(&id, rng.next());
                let k = s.make_keyed(kind, Ty::U64, p, 0).unwrap_or(0);
                for h in v {
                    s.h(k, h);
                    s.cnt(k);
                }
                s.end();
            }
        }
    }
}
