//! Replays behaviours generated from the specification (Gen.tla).
//!
//! Input: a line with the runs, then one line per behaviour: a list of
//! commands ["ins", k, x], ["cnt", k, 0], ["mrg", a, b], ["cpy", a, b].
use crate::gen::*;
use crate::hashers::Rng;
use crate::sk::*;
use crate::world::*;
use serde_json::Value;
use std::collections::BTreeMap;

pub fn exec(path: &str, kind: Kind, p: u8, clone: bool, seed: u64) {
    let text = std::fs::read_to_string(path).unwrap();
    let mut lines = text.lines();
    let runs: Vec<Value> = serde_json::from_str(lines.next().unwrap()).unwrap();
    let g = |v: &Value, f: &str| v[f].as_u64().unwrap();
    // elements as opaque units, so that they serve both sketch kinds
    let elems: Vec<Atom> = runs
        .iter()
        .enumerate()
        .map(|(i, v)| {
            let run = Atom::run(Kind::Plus, p, g(v, "s"), g(v, "d"), g(v, "n"), g(v, "r") as u32);
            let hs = run.hashes().to_vec();
            match kind {
                Kind::Plus => run,
                // for HyperLogLog let the low half matter as well
                Kind::PF => x(
                    format!("e{}", i + 1),
                    hs.iter().map(|h| h ^ (h >> 32)).collect(),
                ),
            }
        })
        .collect();
    let spots = {
        let mut rng = Rng::new(7);
        buckets_of(kind, p, &elems, &mut rng, 10)
    };
    for (n, line) in lines.enumerate() {
        if !mine(p, n as u64) {
            continue;
        }
        let cmds: Vec<Vec<Value>> = serde_json::from_str(line).unwrap();
        let mut rng = Rng::new(seed ^ ((n as u64) << 20));
        let mut s = Sc::new(&format!("gen-p{}-{}", p, n), rng.next());
        let mut ks: BTreeMap<u64, u32> = BTreeMap::new();
        for c in &cmds {
            for i in 1..=2 {
                let k = c[i].as_u64().unwrap();
                if (i == 1 || c[0] == "mrg" || c[0] == "cpy") && !ks.contains_key(&k) {
                    let id = s.mk(kind, p);
                    ks.insert(k, id);
                }
            }
            let a = ks[&c[1].as_u64().unwrap()];
            let arg = c[2].as_u64().unwrap();
            match c[0].as_str().unwrap() {
                "ins" => s.ins(a, std::slice::from_ref(&elems[arg as usize - 1]), Order::Asc),
                "cnt" => {
                    s.cnt(a);
                }
                "mrg" => {
                    s.mrg(a, ks[&arg]);
                }
                "cpy" => {
                    let c = if clone { s.cln(a) } else { s.reload(a, rng.below(FORMATS) as u8) };
                    ks.insert(arg, c);
                }
                o => panic!("unknown command {}", o),
            }
        }
        let ms = masks(kind, p, &spots, 3, &mut rng);
        for k in ks.values() {
            let c = s.control(*k);
            s.probe(&[*k, c], &ms);
        }
        s.end();
    }
}
